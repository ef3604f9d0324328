package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/optimizer"
	"github.com/aligator/goslice/slicer"
	"github.com/aligator/goslice/writer"
	"pgregory.net/rapid"
)

// ---- all steps replaced by recorders with injected faults

// stepCase: which of the steps fails. 0 nothing, 1 read, 2 optimize, 3 slice,
// 4..4+mods-1 modifiers, then generate and write.
type stepCase struct {
	Mods   int    `json:"mods"`
	Fail   int    `json:"fail"`
	Value  bool   `json:"value"` // a failing step returns a result, too
	Faces  int    `json:"faces"`
	Layers int    `json:"layers"`
	In     string `json:"in"`
	Out    string `json:"out"`
	GCode  string `json:"gcode"`
	Twice  bool   `json:"twice"` // run the same instance again without the fault
}

type stepLog struct {
	k     stepCase
	fail  int
	err   error
	calls []string
	bad   []string

	model  data.Model
	om     data.OptimizedModel
	layers []data.PartitionedLayer
}

func (l *stepLog) call(format string, a ...interface{}) {
	l.calls = append(l.calls, fmt.Sprintf(format, a...))
}

func (l *stepLog) expect(ok bool, format string, a ...interface{}) {
	if !ok {
		l.bad = append(l.bad, fmt.Sprintf(format, a...))
	}
}

type fakeLayer struct {
	data.PartitionedLayer
	nr int
}

type fakeModel struct {
	data.OptimizedModel
	tag int
}

func (m *fakeModel) FaceCount() int { return m.tag }

func (l *stepLog) sameLayers(got []data.PartitionedLayer) bool {
	if len(got) != len(l.layers) {
		return false
	}
	for i := range got {
		if got[i] != l.layers[i] {
			return false
		}
	}
	return true
}

type fakeReader struct{ *stepLog }

func (r fakeReader) Read(name string) (data.Model, error) {
	r.call("read")
	r.expect(name == r.k.In, "%q is read instead of %q", name, r.k.In)
	if r.fail == 1 {
		if r.k.Value {
			return r.model, r.err
		}
		return nil, r.err
	}
	return r.model, nil
}

type fakeOptimizer struct{ *stepLog }

func (r fakeOptimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
	r.call("optimize")
	r.expect(m == r.model, "another model is optimized")
	if r.fail == 2 {
		if r.k.Value {
			return r.om, r.err
		}
		return nil, r.err
	}
	return r.om, nil
}

type fakeSlicer struct{ *stepLog }

func (r fakeSlicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	r.call("slice")
	r.expect(m == r.om, "another model is sliced")
	if r.fail == 3 {
		if r.k.Value {
			return r.layers, r.err
		}
		return nil, r.err
	}
	return r.layers, nil
}

type fakeModifier struct {
	*stepLog
	nr int
}

func (r fakeModifier) GetName() string { return fmt.Sprintf("modifier %d", r.nr) }
func (r fakeModifier) Init(m data.OptimizedModel) {
	r.call("init %d", r.nr)
	r.expect(m == r.om, "modifier %d is initialized with another model", r.nr)
}
func (r fakeModifier) Modify(layers []data.PartitionedLayer) error {
	r.call("modify %d", r.nr)
	r.expect(r.sameLayers(layers), "modifier %d works on other layers", r.nr)
	if r.fail == 4+r.nr {
		return r.err
	}
	// hand on a changed layer
	if len(layers) > 0 {
		i := r.nr % len(layers)
		layers[i] = &fakeLayer{nr: 1000*(r.nr+1) + i}
		r.layers = append([]data.PartitionedLayer(nil), layers...)
	}
	return nil
}

type fakeGenerator struct{ *stepLog }

func (r fakeGenerator) Init(m data.OptimizedModel) {
	r.call("init generator")
	r.expect(m == r.om, "the generator is initialized with another model")
}
func (r fakeGenerator) Generate(layers []data.PartitionedLayer) (string, error) {
	r.call("generate")
	r.expect(r.sameLayers(layers), "G-code is generated for other layers")
	if r.fail == 4+r.k.Mods {
		if r.k.Value {
			return r.k.GCode, r.err
		}
		return "", r.err
	}
	return r.k.GCode, nil
}

type fakeWriter struct{ *stepLog }

func (r fakeWriter) Write(g, dest string) error {
	r.call("write")
	r.expect(g == r.k.GCode, "other G-code is written: %q instead of %q", g, r.k.GCode)
	want := r.k.Out
	if want == "" {
		want = r.k.In + ".gcode"
	}
	r.expect(dest == want, "%q is written instead of %q", dest, want)
	if r.fail == 5+r.k.Mods {
		return r.err
	}
	return nil
}

func checkSteps(c *Ctx, k stepCase) error {
	l := &stepLog{k: k, fail: k.Fail, err: fmt.Errorf("injected fault %d", k.Fail)}
	d := stdOpt().Data()
	d.GoSlice.InputFilePath, d.GoSlice.OutputFilePath = k.In, k.Out
	gs := goslice.NewGoSlice(d)
	gs.Reader, gs.Optimizer, gs.Slicer = fakeReader{l}, fakeOptimizer{l}, fakeSlicer{l}
	gs.Generator, gs.Writer = fakeGenerator{l}, fakeWriter{l}
	gs.Modifiers = nil
	for i := 0; i < k.Mods; i++ {
		gs.Modifiers = append(gs.Modifiers, fakeModifier{l, i})
	}
	run := func() error {
		l.calls = nil
		l.model, l.om = newModelPtr(k.Faces), &fakeModel{tag: k.Faces}
		var ls []data.PartitionedLayer
		for i := 0; i < k.Layers; i++ {
			ls = append(ls, &fakeLayer{nr: i})
		}
		l.layers = ls
		err := gs.Process()
		// the steps which have to be run
		var want []string
		steps := []string{"read", "optimize", "slice"}
		for i := 0; i < k.Mods; i++ {
			steps = append(steps, fmt.Sprintf("modify %d", i))
		}
		steps = append(steps, "generate", "write")
		for i, s := range steps {
			want = append(want, s)
			if l.fail == i+1 {
				break
			}
			if i == 0 && k.Faces == 0 {
				break
			}
		}
		inits := map[string]bool{}
		var got []string
		for _, s := range l.calls {
			if strings.HasPrefix(s, "init") {
				if inits[s] {
					return fmt.Errorf("%s twice: %v", s, l.calls)
				}
				inits[s] = true
				continue
			}
			got = append(got, s)
			if strings.HasPrefix(s, "modify ") && !inits["init "+s[7:]] || s == "generate" && !inits["init generator"] {
				return fmt.Errorf("%s without initialization: %v", s, l.calls)
			}
		}
		if len(l.bad) > 0 {
			return fmt.Errorf("%s", strings.Join(l.bad, "; "))
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("the steps were %v instead of %v", got, want)
		}
		switch {
		case l.fail > 0 && (l.fail == 1 || k.Faces > 0):
			if !errors.Is(err, l.err) {
				return fmt.Errorf("step %q fails, but the run returns %v", want[len(want)-1], err)
			}
		case k.Faces == 0:
			if err == nil {
				return fmt.Errorf("no error for a model without faces")
			}
		case err != nil:
			return fmt.Errorf("no step fails, but the run returns %v", err)
		}
		return nil
	}
	if err := run(); err != nil {
		return err
	}
	if k.Twice {
		l.fail = 0
		if err := run(); err != nil {
			return fmt.Errorf("second run: %w", err)
		}
	}
	if k.Faces > 0 && (k.Fail > 0 || k.Mods > 1) {
		c.NonTrivial()
	}
	c.LabelIf(k.Fail == 0, "no fault")
	c.LabelIf(k.Fail > 3 && k.Fail < 4+k.Mods, "modifier fails")
	return nil
}

type countModel struct {
	data.Model
	n int
}

func (m *countModel) FaceCount() int      { return m.n }
func (m *countModel) Min() data.MicroVec3 { return vec(V{}) }
func (m *countModel) Max() data.MicroVec3 { return vec(V{1, 1, 1}) }

func newModelPtr(n int) data.Model { return &countModel{n: n} }

// ---- the generator with its renderers

type renderCase struct {
	Renderers int  `json:"renderers"`
	Layers    int  `json:"layers"`
	FailR     int  `json:"failr"` // the renderer failing at FailL, -1 none
	FailL     int  `json:"faill"`
	O         Opt  `json:"o"`
	Same      bool `json:"same"` // one more run afterwards
}

type renderLog struct {
	k      renderCase
	calls  []string
	layers []data.PartitionedLayer
	om     data.OptimizedModel
	bad    []string
	inits  []int
	failed error
	off    bool
}

type fakeRenderer struct {
	*renderLog
	nr int
}

func (r fakeRenderer) Init(m data.OptimizedModel) {
	r.inits[r.nr]++
	if m != r.om {
		r.bad = append(r.bad, "another model")
	}
}
func (r fakeRenderer) Render(b *gcode.Builder, layerNr, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, options *data.Options) error {
	r.calls = append(r.calls, fmt.Sprintf("%d/%d", layerNr, r.nr))
	if layerNr < 0 || layerNr >= len(r.layers) || layer != r.layers[layerNr] {
		r.bad = append(r.bad, fmt.Sprintf("renderer %d gets another layer for number %d", r.nr, layerNr))
	}
	if maxLayer != len(r.layers)-1 {
		r.bad = append(r.bad, fmt.Sprintf("the highest layer is said to be %d", maxLayer))
	}
	if want := r.k.O.ILT + int64(layerNr)*r.k.O.LT; int64(z) != want {
		r.bad = append(r.bad, fmt.Sprintf("layer %d is at %d instead of %d", layerNr, z, want))
	}
	if options == nil || int64(options.Print.LayerThickness) != r.k.O.LT {
		r.bad = append(r.bad, "other options")
	}
	if r.inits[r.nr] == 0 {
		r.bad = append(r.bad, fmt.Sprintf("renderer %d is not initialized", r.nr))
	}
	if !r.off && r.nr == r.k.FailR && layerNr == r.k.FailL {
		b.AddComment("partial")
		return r.failed
	}
	b.AddComment("%d %d", layerNr, r.nr)
	return nil
}

func checkRenderers(c *Ctx, k renderCase) error {
	l := &renderLog{k: k, inits: make([]int, k.Renderers), om: &fakeModel{tag: 1}, failed: fmt.Errorf("injected fault")}
	d := k.O.Data()
	gen := newGenerator(&d, l)
	for i := 0; i < k.Layers; i++ {
		l.layers = append(l.layers, &fakeLayer{nr: i})
	}
	runs := 1
	if k.Same {
		runs = 2
	}
	for run := 0; run < runs; run++ {
		l.calls = nil
		l.off = run > 0
		gen.Init(l.om)
		g, err := gen.Generate(append([]data.PartitionedLayer(nil), l.layers...))
		var want []string
		var text strings.Builder
		failed := false
	all:
		for i := 0; i < k.Layers; i++ {
			for j := 0; j < k.Renderers; j++ {
				want = append(want, fmt.Sprintf("%d/%d", i, j))
				if !l.off && i == k.FailL && j == k.FailR {
					failed = true
					break all
				}
				fmt.Fprintf(&text, ";%d %d\n", i, j)
			}
		}
		if len(l.bad) > 0 {
			return fmt.Errorf("%s", l.bad[0])
		}
		if fmt.Sprint(l.calls) != fmt.Sprint(want) {
			return fmt.Errorf("run %d: the renderers are called as %v instead of %v", run, l.calls, want)
		}
		if failed {
			if !errors.Is(err, l.failed) {
				return fmt.Errorf("a renderer fails, but Generate returns %v", err)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("no renderer fails, but Generate returns %v", err)
		}
		if g != text.String() {
			return fmt.Errorf("run %d: the G-code is %q instead of %q", run, g, text.String())
		}
	}
	if k.Layers > 1 && k.Renderers > 1 {
		c.NonTrivial()
	}
	c.LabelIf(k.FailR >= 0 && k.FailR < k.Renderers && k.FailL < k.Layers, "renderer fails")
	return nil
}

func newGenerator(d *data.Options, l *renderLog) handler.GCodeGenerator {
	g := gcode.NewGenerator(d)
	if l.k.Renderers > 0 {
		// the option type is not exported, so that they can not be collected
		switch l.k.Renderers {
		case 1:
			g = gcode.NewGenerator(d, gcode.WithRenderer(fakeRenderer{l, 0}))
		case 2:
			g = gcode.NewGenerator(d, gcode.WithRenderer(fakeRenderer{l, 0}), gcode.WithRenderer(fakeRenderer{l, 1}))
		case 3:
			g = gcode.NewGenerator(d, gcode.WithRenderer(fakeRenderer{l, 0}), gcode.WithRenderer(fakeRenderer{l, 1}), gcode.WithRenderer(fakeRenderer{l, 2}))
		default:
			g = gcode.NewGenerator(d, gcode.WithRenderer(fakeRenderer{l, 0}), gcode.WithRenderer(fakeRenderer{l, 1}), gcode.WithRenderer(fakeRenderer{l, 2}), gcode.WithRenderer(fakeRenderer{l, 3}))
		}
	}
	return g
}

// ---- the real writer and real files

type writeCase struct {
	GCode  string `json:"gcode"`
	Repeat int    `json:"repeat"`
	Old    int    `json:"old"`  // length of the former content, -1 no file
	Dest   string `json:"dest"` // file, default, dir, nodir, underfile, full, fullprocess, link, empty
	Fail   int    `json:"fail"` // as in stepCase with 0 modifiers
}

func checkWrite(c *Ctx, k writeCase) error {
	dir, err := os.MkdirTemp(scratchDir, "wr")
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	defer os.RemoveAll(dir)
	content := strings.Repeat(k.GCode, k.Repeat)
	in := filepath.Join(dir, "in put.stl")
	dest := filepath.Join(dir, "out put.gcode")
	asked := dest
	real := dest
	old := bytes.Repeat([]byte("old content\n"), k.Old/12+1)
	if k.Old >= 0 {
		old = old[:k.Old]
	}
	works := true
	switch k.Dest {
	case "default":
		dest, asked = in+".gcode", ""
		real = dest
	case "dir":
		works = false
		if err := os.Mkdir(dest, 0o755); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	case "nodir":
		works = false
		dest = filepath.Join(dir, "missing", "x.gcode")
		asked = dest
	case "underfile":
		works = false
		if err := os.WriteFile(filepath.Join(dir, "plain"), []byte("plain"), 0o644); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
		dest = filepath.Join(dir, "plain", "x.gcode")
		asked = dest
	case "full":
		works = len(content) == 0
		// through a link, so that nothing can replace or remove the device
		if err := os.Symlink("/dev/full", dest); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	case "link":
		real = filepath.Join(dir, "target")
		if err := os.Symlink(real, dest); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	case "longname":
		works = false
		dest = filepath.Join(dir, strings.Repeat("n", 300))
		asked = dest
	}
	hasOld := k.Old >= 0 && (k.Dest == "file" || k.Dest == "default" || k.Dest == "link")
	if hasOld {
		if err := os.WriteFile(real, old, 0o644); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	d := stdOpt().Data()
	d.GoSlice.InputFilePath, d.GoSlice.OutputFilePath = in, asked
	l := &stepLog{k: stepCase{In: in, Out: asked, GCode: content, Faces: 1, Layers: 2}, fail: k.Fail, err: fmt.Errorf("injected fault")}
	l.model, l.om, l.layers = newModelPtr(1), &fakeModel{tag: 1}, []data.PartitionedLayer{&fakeLayer{nr: 0}, &fakeLayer{nr: 1}}
	gs := goslice.NewGoSlice(d)
	gs.Reader, gs.Optimizer, gs.Slicer, gs.Modifiers, gs.Generator = fakeReader{l}, fakeOptimizer{l}, fakeSlicer{l}, nil, fakeGenerator{l}
	gs.Writer = writer.Writer()
	err = gs.Process()
	if len(l.bad) > 0 {
		return fmt.Errorf("%s", l.bad[0])
	}
	if k.Fail > 0 {
		if !errors.Is(err, l.err) {
			return fmt.Errorf("a step fails, but the run returns %v", err)
		}
		if k.Dest == "full" {
			return nil
		}
		b, rerr := os.ReadFile(real)
		switch {
		case hasOld && (rerr != nil || !bytes.Equal(b, old)):
			return fmt.Errorf("a failing run changes the former output file")
		case !hasOld && rerr == nil:
			return fmt.Errorf("a failing run writes its output file")
		}
		c.NonTrivial()
		c.Label("earlier step fails")
		return nil
	}
	if !works {
		if err == nil {
			return fmt.Errorf("%s: no error, although the G-code (%d bytes) can not be written to %s", k.Dest, len(content), dest)
		}
		c.NonTrivial()
		c.Label("not writable: %s", k.Dest)
		return nil
	}
	if k.Dest == "full" {
		return nil // writing nothing may fail or not
	}
	if err != nil {
		return fmt.Errorf("%s: %w", k.Dest, err)
	}
	b, err := os.ReadFile(dest)
	if err != nil {
		return fmt.Errorf("%s: the output file is missing: %w", k.Dest, err)
	}
	if string(b) != content {
		return fmt.Errorf("%s: the output file has %d bytes instead of the %d of the G-code (before: %d)", k.Dest, len(b), len(content), k.Old)
	}
	var files []string
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		files = append(files, e.Name())
	}
	sort.Strings(files)
	n := 1
	if k.Dest == "link" {
		n = 2
		if i, err := os.Lstat(dest); err != nil || i.Mode()&os.ModeSymlink == 0 {
			return fmt.Errorf("the link was replaced")
		}
	}
	if len(files) != n {
		return fmt.Errorf("%s: the run leaves %v", k.Dest, files)
	}
	if k.Old > len(content) || len(content) > 4096 {
		c.NonTrivial()
	}
	c.LabelIf(k.Old > len(content), "longer former content")
	c.LabelIf(len(content) > 1<<20, "more than 1 MB")
	return nil
}

// ---- faults inside of the real pipeline

type realFault struct {
	S    Mesh `json:"mesh"`
	O    Opt  `json:"o"`
	Kind int  `json:"kind"` // 0 none, 1 cut file, 2 missing file, 3 failing modifier at Pos, 4 attribute with the wrong type, 5 file limited to Limit bytes by the system (command)
	Pos  int  `json:"pos"`
	Attr int  `json:"attr"`
	Lim  int  `json:"lim"` // percent
	Old  bool `json:"old"`
	CLI  bool `json:"cli"`
}

type attrFault struct {
	pos, layer int
	done       *string
	fail       error
}

type attrLayer struct {
	data.PartitionedLayer
	attrs map[string]interface{}
}

func (l attrLayer) Attributes() map[string]interface{} { return l.attrs }

func (m attrFault) GetName() string            { return "fault" }
func (m attrFault) Init(_ data.OptimizedModel) {}
func (m attrFault) Modify(layers []data.PartitionedLayer) error {
	if m.fail != nil {
		return m.fail
	}
	if len(layers) == 0 {
		return nil
	}
	// only the attributes which have to be printed
	l := layers[m.layer%len(layers)]
	var names []string
	for n := range l.Attributes() {
		for _, p := range []string{"perimeters", "bottom", "top", "infill", "support", "supportInterface", "brim"} {
			if n == p {
				names = append(names, n)
			}
		}
	}
	if len(names) == 0 {
		return nil
	}
	sort.Strings(names)
	name := names[m.pos%len(names)]
	attrs := map[string]interface{}{}
	for n, v := range l.Attributes() {
		attrs[n] = v
	}
	attrs[name] = "no areas"
	layers[m.layer%len(layers)] = attrLayer{l, attrs}
	*m.done = fmt.Sprintf("%s of layer %d", name, m.layer%len(layers))
	return nil
}

func checkReal(c *Ctx, k realFault) error {
	dir, err := os.MkdirTemp(scratchDir, "rf")
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "m.stl"), filepath.Join(dir, "o.gcode")
	stl := writeBinarySTL("m", ftris(k.S.Tris()))
	full := stl
	if k.Kind == 1 {
		stl = stl[:84+(len(stl)-84)*k.Lim/101]
		if len(stl) == len(full) {
			stl = stl[:len(stl)-1]
		}
	}
	if k.Kind != 2 {
		if err := os.WriteFile(in, stl, 0o644); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	old := []byte(strings.Repeat("former content\n", 3000))
	if k.Old {
		if err := os.WriteFile(out, old, 0o644); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	d := k.O.Data()
	d.GoSlice.InputFilePath, d.GoSlice.OutputFilePath = in, out
	untouched := func() error {
		b, err := os.ReadFile(out)
		if k.Old && (err != nil || !bytes.Equal(b, old)) {
			return fmt.Errorf("kind %d: a failing run changes the former output file", k.Kind)
		}
		if !k.Old && err == nil {
			return fmt.Errorf("kind %d: a failing run writes an output file of %d bytes", k.Kind, len(b))
		}
		return nil
	}
	// the reference: all real steps called one after another
	ref := func() (string, error) {
		gs := goslice.NewGoSlice(d)
		m, err := gs.Reader.Read(in)
		if err != nil {
			return "", err
		}
		om, err := optimizer.NewOptimizer(&d).Optimize(m)
		if err != nil {
			return "", err
		}
		layers, err := slicer.NewSlicer(&d).Slice(om)
		if err != nil {
			return "", err
		}
		for _, m := range gs.Modifiers {
			m.Init(om)
			if err := m.Modify(layers); err != nil {
				return "", err
			}
		}
		gs.Generator.Init(om)
		return gs.Generator.Generate(layers)
	}
	if k.Kind == 5 {
		return checkLimited(c, k, dir, in, out)
	}
	gs := goslice.NewGoSlice(d)
	done := ""
	fault := attrFault{pos: k.Attr, layer: k.Pos, done: &done}
	switch k.Kind {
	case 3:
		fault.fail = errors.New("injected fault")
		at := k.Pos % (len(gs.Modifiers) + 1)
		ms := append([]handler.LayerModifier(nil), gs.Modifiers[:at]...)
		gs.Modifiers = append(append(ms, fault), gs.Modifiers[at:]...)
	case 4:
		gs.Modifiers = append(append([]handler.LayerModifier(nil), gs.Modifiers...), fault)
	}
	err = gs.Process()
	want, refErr := ref()
	bad := k.Kind == 1 || k.Kind == 2 || k.Kind == 3 || k.Kind == 4 && done != "" || refErr != nil
	if bad {
		if err == nil {
			return fmt.Errorf("kind %d %s: the run succeeds (step by step: %v)", k.Kind, done, refErr)
		}
		if k.Kind == 3 && refErr == nil && !errors.Is(err, fault.fail) {
			return fmt.Errorf("the modifier's error is reported as %v", err)
		}
		if err := untouched(); err != nil {
			return err
		}
		c.NonTrivial()
		c.Label("fault %d", k.Kind)
		return nil
	}
	if err != nil {
		return fmt.Errorf("the run fails where the single steps do not: %w", err)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("no output file: %w", err)
	}
	if string(b) != want {
		return fmt.Errorf("the output differs from that of the single steps: %s", firstDiff(string(b), want))
	}
	if len(b) > 1000 {
		c.NonTrivial()
		c.Label("complete")
	}
	return nil
}

// checkLimited runs the command with a limited file size.
func checkLimited(c *Ctx, k realFault, dir, in, out string) error {
	if cliPath == "" {
		return fmt.Errorf("harness: no command")
	}
	if err := exec.Command(cliPath, "-o", out, in).Run(); err != nil {
		return fmt.Errorf("the command fails: %w", err)
	}
	all, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("the command writes no file: %w", err)
	}
	// blocks of 512 or 1024 bytes, depending on the shell
	blocks := len(all) / 1024 * k.Lim / 100 / 2
	out2 := filepath.Join(dir, "limited.gcode")
	cmd := exec.Command("/bin/sh", "-c", `ulimit -f "$0"; trap "" XFSZ; exec "$1" -o "$2" "$3" >/dev/null`, fmt.Sprint(blocks), cliPath, out2, in)
	err = cmd.Run()
	got, rerr := os.ReadFile(out2)
	if rerr != nil {
		got = nil
	}
	if err == nil && !bytes.Equal(got, all) {
		return fmt.Errorf("the command ends with status 0, but writes %d of %d bytes", len(got), len(all))
	}
	if err != nil && len(got) < len(all) {
		c.NonTrivial()
		c.Label("file size limit")
	}
	return nil
}

func init() {
	Register("C27", "steps", 30000, 1000000,
		"runs with 0..8 modifiers, all steps replaced by recorders, none or any one of them failing (with or without a result besides the error), models with and without faces; the calls and what they work on are compared with a reference, and the same instance is run again without the fault; non-trivial: a fault or at least two modifiers",
		func(t *rapid.T) stepCase {
			k := stepCase{Mods: rapid.IntRange(0, 8).Draw(t, "mods"), Value: rapid.Bool().Draw(t, "value"), Faces: rapid.IntRange(0, 7).Draw(t, "faces"), Layers: rapid.IntRange(0, 6).Draw(t, "layers"), Twice: rapid.Bool().Draw(t, "twice")}
			if rapid.IntRange(0, 3).Draw(t, "ok") > 0 {
				k.Fail = rapid.IntRange(1, 5+k.Mods).Draw(t, "fail")
			}
			k.In = rapid.SampledFrom([]string{"a.stl", "/x/y z.stl", "noending", "ä.STL", ""}).Draw(t, "in")
			k.Out = rapid.SampledFrom([]string{"", "b.gcode", "/x/out", "a.stl"}).Draw(t, "out")
			k.GCode = rapid.StringN(0, 40, 80).Draw(t, "gcode")
			return k
		}, checkSteps)
	Register("C27", "renderers", 20000, 600000,
		"the real generator with 0..4 recording renderers and 0..30 layers, none or any renderer failing at any layer, run again without the fault; calls, arguments, result and error are compared with a reference; non-trivial: at least two renderers and layers",
		func(t *rapid.T) renderCase {
			k := renderCase{Renderers: rapid.IntRange(0, 4).Draw(t, "renderers"), Layers: rapid.IntRange(0, 30).Draw(t, "layers"), FailR: -1, O: stdOpt(), Same: rapid.Bool().Draw(t, "same")}
			k.O.ILT, k.O.LT = rapid.Int64Range(50, 500).Draw(t, "ilt"), rapid.Int64Range(50, 500).Draw(t, "lt")
			if rapid.Bool().Draw(t, "fails") {
				k.FailR, k.FailL = rapid.IntRange(0, 4).Draw(t, "failr"), rapid.IntRange(0, 30).Draw(t, "faill")
			}
			return k
		}, checkRenderers)
	Register("C27", "write", 6000, 200000,
		"G-code of 0 bytes to 3 MB written by the real writer to a new file, over shorter or longer former content, through a link, to the default place, and to targets which can not be written (directory, missing directory, below a file, full device, too long name), also with an earlier step failing; the file is compared byte by byte; non-trivial: a failure, longer former content or more than 4 kB",
		func(t *rapid.T) writeCase {
			k := writeCase{GCode: rapid.StringN(0, 60, 200).Draw(t, "gcode"), Repeat: rapid.SampledFrom([]int{0, 1, 3, 50, 1000, 20000}).Draw(t, "repeat"), Old: rapid.SampledFrom([]int{-1, 0, 10, 5000, 300000}).Draw(t, "old")}
			k.Dest = rapid.SampledFrom([]string{"file", "file", "default", "default", "link", "dir", "nodir", "underfile", "full", "full", "longname"}).Draw(t, "dest")
			if rapid.IntRange(0, 5).Draw(t, "fails") == 0 {
				k.Fail = rapid.IntRange(1, 4).Draw(t, "fail")
			}
			return k
		}, checkWrite)
	Register("C27", "real", 1600, 50000,
		"complete runs from STL file to G-code file (1..2 bodies, random options) without fault (compared with the steps called one by one), with a truncated or missing file, a failing modifier at any place, an attribute of the wrong type, or a file size limit of the system; a failing run leaves former output untouched; non-trivial: a fault or 1 kB of G-code",
		func(t *rapid.T) realFault {
			s := genPrint(t, 2, 4)
			k := realFault{S: s.Mesh, O: s.O, Pos: rapid.IntRange(0, 40).Draw(t, "pos"), Attr: rapid.IntRange(0, 6).Draw(t, "attr"), Lim: rapid.IntRange(0, 100).Draw(t, "lim"), Old: rapid.Bool().Draw(t, "old")}
			k.Kind = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 3, 4, 4, 4, 4, 5}).Draw(t, "kind")
			return k
		}, checkReal)
}
