package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/modifier"
	"github.com/aligator/goslice/optimizer"
	"github.com/aligator/goslice/reader"
	"pgregory.net/rapid"
)

// ---- C30: the prepared model

// readBinarySTL is an independent parser of binary STL files.
func readBinarySTL(b []byte) ([]ftri, error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("only %d bytes", len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, fmt.Errorf("%d bytes for %d triangles", len(b), n)
	}
	out := make([]ftri, n)
	for i := range out {
		at := 84 + 50*i + 12
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				out[i][j][k] = math.Float32frombits(binary.LittleEndian.Uint32(b[at+12*j+4*k:]))
			}
		}
	}
	return out, nil
}

func sameModel(om data.OptimizedModel, want []Tri) error {
	if om.FaceCount() != len(want) {
		return fmt.Errorf("%d faces instead of %d", om.FaceCount(), len(want))
	}
	for i, w := range want {
		for view, f := range map[string]data.Face{"face": om.Face(i), "optimized face": om.OptimizedFace(i)} {
			p := f.Points()
			if got := (Tri{unvec(p[0]), unvec(p[1]), unvec(p[2])}); got != w {
				return fmt.Errorf("%s %d is %v, it was %v", view, i, got, w)
			}
		}
	}
	return nil
}

type exportCase struct {
	Soup soupCase `json:"soup"`
	Old  int      `json:"old"` // 1: the file exists with longer content
	Bad  int      `json:"bad"` // 1: the directory does not exist, 2: the file is a directory
}

func checkExport(c *Ctx, k exportCase) error {
	o := stdOpt()
	o.Meld, o.Center = k.Soup.Meld, k.Soup.Center
	d := o.Data()
	before := fmt.Sprint(d.Slicing, d.Print, d.Printer, d.Filament)
	om, err := optimizer.NewOptimizer(&d).Optimize(memModel{k.Soup.Tris})
	if err != nil {
		return nil
	}
	faces := modelTris(om)
	for i, t := range faces {
		lo, hi := min64(t[0][2], min64(t[1][2], t[2][2])), max64(t[0][2], max64(t[1][2], t[2][2]))
		f := om.OptimizedFace(i)
		if int64(f.MinZ()) != lo || int64(f.MaxZ()) != hi {
			return fmt.Errorf("face %d %v reaches from %d to %d instead of %d to %d", i, t, f.MinZ(), f.MaxZ(), lo, hi)
		}
	}
	if err := sameModel(om, faces); err != nil {
		return err
	}

	dir, err := os.MkdirTemp(scratchDir, "ex")
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "debug.stl")
	switch {
	case k.Bad == 1:
		file = filepath.Join(dir, "none", "debug.stl")
	case k.Bad == 2:
		if err := os.Mkdir(file, 0o755); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	case k.Old == 1:
		if err := os.WriteFile(file, []byte(strings.Repeat("solid former content\n", 500)), 0o644); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	err = om.SaveDebugSTL(file)
	if k.Bad > 0 {
		if err == nil {
			return fmt.Errorf("the export to %s reports no error", map[int]string{1: "a missing directory", 2: "a directory"}[k.Bad])
		}
		c.NonTrivial()
		c.Label("not writable")
		return nil
	}
	if err != nil {
		return fmt.Errorf("the export fails: %w", err)
	}
	raw, err := os.ReadFile(file)
	if err != nil {
		return fmt.Errorf("the export writes no file: %w", err)
	}
	got, err := readBinarySTL(raw)
	if err != nil {
		return fmt.Errorf("the exported file is no binary STL: %w", err)
	}
	// a micrometre or the distance of two float32 values
	near := func(mm float32, um int64) bool {
		return math.Abs(float64(mm)*1000-float64(um)) <= 0.5+math.Abs(float64(um))*1e-6
	}
	if len(got) != len(faces) {
		return fmt.Errorf("the export has %d triangles instead of %d", len(got), len(faces))
	}
	for i, t := range faces {
		for j := range t {
			for x := range t[j] {
				if !near(got[i][j][x], t[j][x]) {
					return fmt.Errorf("triangle %d is exported as %v (mm) instead of %v (um)", i, got[i], t)
				}
			}
		}
	}
	m, err := reader.Reader(&d).Read(file)
	if err != nil {
		return fmt.Errorf("the exported file is not loaded: %w", err)
	}
	for i, t := range modelTris(m) {
		for j := range t {
			for x := range t[j] {
				if abs64(t[j][x]-faces[i][j][x]) > 1+abs64(faces[i][j][x])/1000000 {
					return fmt.Errorf("face %d is loaded from the export as %v instead of %v", i, t, faces[i])
				}
			}
		}
	}
	if err := sameModel(om, faces); err != nil {
		return fmt.Errorf("after the export: %w", err)
	}
	if after := fmt.Sprint(d.Slicing, d.Print, d.Printer, d.Filament); after != before {
		return fmt.Errorf("the options are changed: %s", firstDiff(after, before))
	}
	c.NonTrivial()
	c.LabelIf(len(faces) > 20, "more than 20 faces")
	c.LabelIf(k.Old == 1, "former file")
	return nil
}

// keptCase is a mesh for the complete run with a look at the prepared model.
type keptCase struct {
	S Mesh `json:"mesh"`
	O Opt  `json:"o"`
}

type modelTap struct {
	m  data.Model
	om *data.OptimizedModel
	h  handler.ModelOptimizer
}

func (t modelTap) Optimize(m data.Model) (data.OptimizedModel, error) {
	om, err := t.h.Optimize(m)
	*t.om = om
	return om, err
}

// sharedModel is a model whose vertices are shared by reference, like that of
// a reader which keeps its faces.
type sharedModel struct {
	faces []sharedFace
	ts    []Tri
}
type sharedFace [3]data.MicroVec3

func (f sharedFace) Points() [3]data.MicroVec3 { return f }

func newSharedModel(ts []Tri) *sharedModel {
	m := &sharedModel{ts: ts}
	same := map[V]data.MicroVec3{}
	for _, t := range ts {
		var f sharedFace
		for j, v := range t {
			if same[v] == nil {
				same[v] = vec(v)
			}
			f[j] = same[v]
		}
		m.faces = append(m.faces, f)
	}
	return m
}
func (m *sharedModel) FaceCount() int       { return len(m.faces) }
func (m *sharedModel) Face(i int) data.Face { return m.faces[i] }
func (m *sharedModel) Min() data.MicroVec3 {
	a, _ := bounds3(m.ts)
	return vec(a)
}
func (m *sharedModel) Max() data.MicroVec3 {
	_, b := bounds3(m.ts)
	return vec(b)
}

func checkModelKept(c *Ctx, k keptCase) error {
	ts := k.S.Tris()
	m := newSharedModel(ts)
	d := k.O.Data()
	gs := goslice.NewGoSlice(d)
	var om data.OptimizedModel
	gs.Reader = memReader{m}
	gs.Writer = &memWriter{}
	gs.Optimizer = modelTap{m: m, om: &om, h: gs.Optimizer}
	// what the optimizer alone makes out of it
	ref, err := optimizeOnly(k.O, ts)
	if err != nil {
		return nil
	}
	want := modelTris(ref)
	touch := func(om data.OptimizedModel) string {
		s := ""
		for i := 0; i < om.FaceCount(); i++ {
			s += fmt.Sprint(om.OptimizedFace(i).TouchingFaceIndices())
		}
		return s + fmt.Sprint(unvec(om.Min()), unvec(om.Max()), unvec(om.Size()))
	}
	if err := gs.Process(); err != nil {
		return fmt.Errorf("the run fails: %w", err)
	}
	for i, t := range modelTris(m) {
		if t != ts[i] {
			return fmt.Errorf("face %d of the loaded model is %v after the run, it was %v", i, t, ts[i])
		}
	}
	if err := sameModel(om, want); err != nil {
		return fmt.Errorf("the prepared model after the run: %w", err)
	}
	if got, want := touch(om), touch(ref); got != want {
		return fmt.Errorf("adjacency or bounds of the prepared model after the run: %s", firstDiff(got, want))
	}
	// preparing the same model once more
	again, err := gs.Optimizer.Optimize(m)
	if err != nil {
		return fmt.Errorf("preparing it again: %w", err)
	}
	if err := sameModel(again, want); err != nil {
		return fmt.Errorf("prepared again: %w", err)
	}
	// a prepared model is a model as well
	o := k.O
	o.Meld = 0 // the points are melded already
	third, err := optimizeModel(o, om)
	if err != nil {
		return fmt.Errorf("preparing the prepared model: %w", err)
	}
	// it is at its place already, up to the rounding of the centre
	shift := V{}
	if third.FaceCount() > 0 {
		shift = vsub(unvec(third.Face(0).Points()[0]), want[0][0])
	}
	if abs64(shift[0]) > 1 || abs64(shift[1]) > 1 || shift[2] != 0 {
		return fmt.Errorf("preparing the prepared model moves it by %v", shift)
	}
	moved := make([]Tri, len(want))
	for i, t := range want {
		moved[i] = Tri{vadd(t[0], shift), vadd(t[1], shift), vadd(t[2], shift)}
	}
	if err := sameModel(third, moved); err != nil {
		return fmt.Errorf("the prepared model prepared: %w", err)
	}
	if err := sameModel(om, want); err != nil {
		return fmt.Errorf("the prepared model after preparing it again: %w", err)
	}
	c.NonTrivial()
	c.LabelIf(len(want) > 50, "more than 50 faces")
	return nil
}

func optimizeModel(o Opt, m data.Model) (data.OptimizedModel, error) {
	d := o.Data()
	return optimizer.NewOptimizer(&d).Optimize(m)
}

// ---- C31: attributes

// describe writes down a whole attribute value.
func describe(v interface{}) string {
	var b strings.Builder
	part := func(p data.LayerPart) {
		fmt.Fprint(&b, "{", fromPath(p.Outline()))
		for _, h := range p.Holes() {
			fmt.Fprint(&b, " -", fromPath(h))
		}
		for _, n := range attrNames(p.Attributes()) {
			fmt.Fprintf(&b, " %s=%v", n, p.Attributes()[n])
		}
		fmt.Fprint(&b, "}")
	}
	parts := func(ps []data.LayerPart) {
		fmt.Fprint(&b, "[")
		for _, p := range ps {
			part(p)
		}
		fmt.Fprint(&b, "]")
	}
	switch a := v.(type) {
	case []data.LayerPart:
		parts(a)
	case [][]data.LayerPart:
		for _, ps := range a {
			parts(ps)
		}
	case clip.OffsetResult:
		for _, l := range a {
			fmt.Fprint(&b, "(")
			for _, ps := range l {
				parts(ps)
			}
			fmt.Fprint(&b, ")")
		}
	default:
		fmt.Fprintf(&b, "%T %v", v, v)
	}
	return b.String()
}

func attrNames(m map[string]interface{}) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

type layerShot struct {
	parts  string
	bounds string
	attrs  map[string]string
}

func shoot(l data.PartitionedLayer) layerShot {
	s := layerShot{parts: describe(l.LayerParts()), attrs: map[string]string{}}
	min, max := l.Bounds()
	s.bounds = fmt.Sprint(min, max)
	for n, v := range l.Attributes() {
		s.attrs[n] = describe(v)
	}
	return s
}

func shootAll(ls []data.PartitionedLayer) (out []layerShot) {
	for _, l := range ls {
		out = append(out, shoot(l))
	}
	return out
}

// kept compares two shots. All attributes of the first one but own have to
// be the same, others may be added.
func kept(before, after []layerShot, own ...string) error {
	if len(before) != len(after) {
		return fmt.Errorf("%d layers instead of %d", len(after), len(before))
	}
	for i, b := range before {
		a := after[i]
		if a.parts != b.parts {
			return fmt.Errorf("the parts of layer %d are changed: %s", i, firstDiff(a.parts, b.parts))
		}
		if a.bounds != b.bounds {
			return fmt.Errorf("the bounds of layer %d are %s instead of %s", i, a.bounds, b.bounds)
		}
		for n, v := range b.attrs {
			if contains(own, n) {
				continue
			}
			got, ok := a.attrs[n]
			if !ok {
				return fmt.Errorf("layer %d lost its attribute %q", i, n)
			}
			if got != v {
				return fmt.Errorf("attribute %q of layer %d is changed: %s", n, i, firstDiff(got, v))
			}
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// stepNames are the built-in modifiers in order with the attributes they set.
var stepNames = []struct {
	name string
	own  []string
}{
	{"Perimeter", []string{"perimeters", "overlapPerimeters"}},
	{"Infill", []string{"bottom", "top"}},
	{"InternalInfill", []string{"infill"}},
	{"Brim", []string{"brim", "outerBrim"}},
	{"SupportDetector", []string{"support"}},
	{"SupportGenerator", []string{"support", "fullSupport", "supportInterface"}},
}

func steps(d *data.Options) []handler.LayerModifier {
	return []handler.LayerModifier{
		modifier.NewPerimeterModifier(d), modifier.NewInfillModifier(d), modifier.NewInternalInfillModifier(d),
		modifier.NewBrimModifier(d), modifier.NewSupportDetectorModifier(d), modifier.NewSupportGeneratorModifier(d),
	}
}

type attrCase struct {
	stackCase
	Custom []int `json:"custom"` // custom attributes of the layers
}

func (k attrCase) attrLayers() []data.PartitionedLayer {
	ls := k.layers()
	for i := range ls {
		kind := 0
		if len(k.Custom) > 0 {
			kind = k.Custom[i%len(k.Custom)]
		}
		switch kind {
		case 1:
			ls[i] = attrLayer{ls[i], map[string]interface{}{"custom": i, "note": fmt.Sprint("layer ", i), "": "unnamed", "nothing": nil}}
		case 2:
			ls[i] = attrLayer{ls[i], map[string]interface{}{"raft": cloneParts(ls[i].LayerParts())}}
		case 3:
			ls[i] = attrLayer{ls[i], map[string]interface{}{}}
		}
	}
	return ls
}

func genAttrCase(t *rapid.T) attrCase {
	o := genOpt(t)
	o.Sup = rapid.IntRange(0, 3).Draw(t, "sup") > 0
	if rapid.Bool().Draw(t, "brimmed") {
		o.Brim = rapid.IntRange(1, 3).Draw(t, "brim")
	}
	if o.SupTopGap > 1 {
		o.SupTopGap = rapid.IntRange(0, 2).Draw(t, "gap")
	}
	if rapid.IntRange(0, 3).Draw(t, "sparse") > 0 {
		o.Bottom, o.Top = rapid.IntRange(0, 2).Draw(t, "b"), rapid.IntRange(0, 2).Draw(t, "tp")
		o.Infill = rapid.IntRange(1, 60).Draw(t, "inf")
	}
	k := attrCase{stackCase: stackCase{Layers: genStack(t, 1, 7, o.W), O: o}}
	k.Custom = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 5).Draw(t, "custom")
	return k
}

// stackModel gives the bounds of the stack to the renderers.
func (k stackCase) model() data.OptimizedModel {
	min, max := P{1 << 40, 1 << 40}, P{-1 << 40, -1 << 40}
	for _, l := range k.layers() {
		for _, p := range l.LayerParts() {
			for _, q := range fromPath(p.Outline()) {
				for x := range q {
					min[x], max[x] = min64(min[x], q[x]), max64(max[x], q[x])
				}
			}
		}
	}
	if min[0] > max[0] {
		min, max = P{0, 0}, P{1000, 1000}
	}
	return boxModel{min: V{min[0], min[1], 0}, max: V{max[0], max[1], 1000}}
}

type boxModel struct {
	data.OptimizedModel
	min, max V
}

func (m boxModel) Min() data.MicroVec3  { return vec(m.min) }
func (m boxModel) Max() data.MicroVec3  { return vec(m.max) }
func (m boxModel) Size() data.MicroVec3 { return vec(vsub(m.max, m.min)) }

func checkAttrsKept(c *Ctx, k attrCase) error {
	d := k.O.Data()
	ls := k.attrLayers()
	seen := map[string]bool{}
	for i, m := range steps(&d) {
		before := shootAll(ls)
		m.Init(k.model())
		if err := m.Modify(ls); err != nil {
			return fmt.Errorf("%s fails: %w", stepNames[i].name, err)
		}
		after := shootAll(ls)
		if err := kept(before, after, stepNames[i].own...); err != nil {
			return fmt.Errorf("%s: %w", stepNames[i].name, err)
		}
		for n := range after {
			for _, a := range stepNames[i].own {
				if after[n].attrs[a] != "" {
					seen[a] = true
				}
			}
		}
	}
	before := shootAll(ls)
	gs := goslice.NewGoSlice(k.O.Data())
	gs.Generator.Init(k.model())
	g, err := gs.Generator.Generate(ls)
	if err != nil {
		return fmt.Errorf("the generator fails: %w", err)
	}
	if err := kept(before, shootAll(ls)); err != nil {
		return fmt.Errorf("generating the G-code: %w", err)
	}
	// and so it gives the same again
	gs2 := goslice.NewGoSlice(k.O.Data())
	gs2.Generator.Init(k.model())
	if g2, err := gs2.Generator.Generate(ls); err != nil || g2 != g {
		return fmt.Errorf("generating it once more gives something else (%v): %s", err, firstDiff(g2, g))
	}
	// custom attributes do not matter
	plain := k.layers()
	for i, m := range steps(&d) {
		if err := m.Modify(plain); err != nil {
			return fmt.Errorf("%s fails without custom attributes: %w", stepNames[i].name, err)
		}
	}
	for i, s := range shootAll(plain) {
		for n, v := range s.attrs {
			if before[i].attrs[n] != v {
				return fmt.Errorf("attribute %q of layer %d differs if the layers have custom attributes: %s", n, i, firstDiff(before[i].attrs[n], v))
			}
		}
	}
	if len(seen) >= 5 {
		c.NonTrivial()
	}
	for n := range seen {
		c.Label("%s", n)
	}
	return nil
}

// wrongCase gives one attribute a wrong type before a step.
type wrongCase struct {
	stackCase
	Step  int `json:"step"` // modifier 1..5 or renderer 6..
	Attr  int `json:"attr"`
	Layer int `json:"layer"`
	Value int `json:"value"`
}

type wrongStep struct {
	name  string
	attrs []string
	only0 bool // only the first layer is used
	run   func(k wrongCase, d *data.Options, ls []data.PartitionedLayer) error
}

func modifierStep(n int) func(k wrongCase, d *data.Options, ls []data.PartitionedLayer) error {
	return func(k wrongCase, d *data.Options, ls []data.PartitionedLayer) error {
		m := steps(d)[n]
		m.Init(k.model())
		return m.Modify(ls)
	}
}

func rendererStep(mk func() handler0) func(k wrongCase, d *data.Options, ls []data.PartitionedLayer) error {
	return func(k wrongCase, d *data.Options, ls []data.PartitionedLayer) error {
		r := mk()
		r.Init(k.model())
		b := gcode.NewGCodeBuilder(d)
		for i, l := range ls {
			z := d.Print.InitialLayerThickness + data.Micrometer(i)*d.Print.LayerThickness
			if err := r.Render(b, i, len(ls)-1, l, z, d); err != nil {
				return err
			}
		}
		return nil
	}
}

type handler0 interface {
	Init(model data.OptimizedModel)
	Render(b *gcode.Builder, layerNr, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, options *data.Options) error
}

func infillRenderer(name string) func() handler0 {
	return func() handler0 {
		return &renderer.Infill{AttrName: name, PatternSetup: func(min, max data.MicroPoint) clip.Pattern {
			return clip.NewLinearPattern(400, 800, min, max, 45, true, false)
		}}
	}
}

var wrongSteps = []wrongStep{
	{"Infill", []string{"perimeters", "overlapPerimeters"}, false, modifierStep(1)},
	{"InternalInfill", []string{"overlapPerimeters", "bottom", "top"}, false, modifierStep(2)},
	{"Brim", []string{"perimeters"}, true, modifierStep(3)},
	{"SupportGenerator", []string{"support"}, false, modifierStep(5)},
	{"perimeter renderer", []string{"perimeters"}, false, rendererStep(func() handler0 { return renderer.Perimeter{} })},
	{"skirt renderer", []string{"perimeters", "fullSupport", "brim"}, true, rendererStep(func() handler0 { return renderer.Skirt{} })},
	{"brim renderer", []string{"brim"}, true, rendererStep(func() handler0 { return renderer.Brim{} })},
	{"bottom renderer", []string{"bottom"}, false, rendererStep(infillRenderer("bottom"))},
	{"top renderer", []string{"top"}, false, rendererStep(infillRenderer("top"))},
	{"infill renderer", []string{"infill"}, false, rendererStep(infillRenderer("infill"))},
	{"support renderer", []string{"support"}, false, rendererStep(infillRenderer("support"))},
	{"interface renderer", []string{"supportInterface"}, false, rendererStep(infillRenderer("supportInterface"))},
	{"custom renderer", []string{"raft"}, false, rendererStep(infillRenderer("raft"))},
}

// wrongValue is a value of a type which is certainly not the right one.
func wrongValue(n int) interface{} {
	switch n % 8 {
	case 0:
		return "no areas"
	case 1:
		return 12
	case 2:
		return []string{"a"}
	case 3:
		return map[string]int{"a": 1}
	case 4:
		return []int{1, 2, 3}
	case 5:
		return struct{ X int }{1}
	case 6:
		return nil // set, but without any value
	}
	return errors.New("no areas")
}

func checkWrongType(c *Ctx, k wrongCase) error {
	st := wrongSteps[k.Step%len(wrongSteps)]
	attr := st.attrs[k.Attr%len(st.attrs)]
	k.O.Skirt = 1 + k.O.Skirt%3
	k.O.Brim = 1 + k.O.Brim%3
	k.O.Sup = true
	d := k.O.Data()
	build := func() ([]data.PartitionedLayer, error) {
		ls := k.layers()
		for i, m := range steps(&d) {
			if stepNames[i].name == st.name {
				break
			}
			if err := m.Modify(ls); err != nil {
				return nil, fmt.Errorf("%s fails: %w", stepNames[i].name, err)
			}
		}
		return ls, nil
	}
	good, err := build()
	if err != nil {
		return err
	}
	if err := st.run(k, &d, good); err != nil {
		return fmt.Errorf("%s fails with the right types: %w", st.name, err)
	}
	// only layers with parts, which the step has to look at
	var at []int
	for i, l := range k.layers() {
		if len(l.LayerParts()) == 0 || st.only0 && i > 0 {
			continue
		}
		if st.name == "SupportGenerator" && i >= len(k.Layers)-1 {
			continue
		}
		at = append(at, i)
	}
	if len(at) == 0 {
		return nil
	}
	ls, err := build()
	if err != nil {
		return err
	}
	n := at[k.Layer%len(at)]
	attrs := map[string]interface{}{}
	for a, v := range ls[n].Attributes() {
		attrs[a] = v
	}
	if attr == "overlapPerimeters" || attr == "perimeters" {
		if _, ok := attrs[attr]; !ok {
			return fmt.Errorf("layer %d has parts but no attribute %q", n, attr)
		}
	}
	attrs[attr] = wrongValue(k.Value)
	ls[n] = attrLayer{ls[n], attrs}
	if err := st.run(k, &d, ls); err == nil {
		return fmt.Errorf("%s accepts a %T as %q in layer %d", st.name, wrongValue(k.Value), attr, n)
	}
	c.NonTrivial()
	c.Label("%s %s", st.name, attr)
	return nil
}

// accessors

type accCase struct {
	Acc   int        `json:"acc"`
	Kind  int        `json:"kind"` // 0 absent, 1 right, 2.. wrong
	Parts []partSpec `json:"parts"`
	Value int        `json:"value"`
	Name  string     `json:"name"`
}

func checkAccessors(c *Ctx, k accCase) error {
	parts := specParts(k.Parts)
	accs := []struct {
		name string
		dim  int
		get  func(data.PartitionedLayer) (interface{}, bool, error)
	}{
		{"perimeters", 3, func(l data.PartitionedLayer) (interface{}, bool, error) {
			r, err := modifier.Perimeters(l)
			return r, r == nil, err
		}},
		{"overlapPerimeters", 2, func(l data.PartitionedLayer) (interface{}, bool, error) {
			r, err := modifier.OverlapPerimeters(l)
			return r, r == nil, err
		}},
		{"brim", 3, func(l data.PartitionedLayer) (interface{}, bool, error) {
			r, err := modifier.Brim(l)
			return r, r == nil, err
		}},
		{"outerBrim", 1, func(l data.PartitionedLayer) (interface{}, bool, error) {
			r, err := modifier.BrimOuterDimension(l)
			return r, r == nil, err
		}},
		{"bottom", 1, func(l data.PartitionedLayer) (interface{}, bool, error) {
			r, err := modifier.BottomInfill(l)
			return r, r == nil, err
		}},
		{"top", 1, func(l data.PartitionedLayer) (interface{}, bool, error) {
			r, err := modifier.TopInfill(l)
			return r, r == nil, err
		}},
		{"fullSupport", 1, func(l data.PartitionedLayer) (interface{}, bool, error) {
			r, err := modifier.FullSupport(l)
			return r, r == nil, err
		}},
		{k.Name, 1, func(l data.PartitionedLayer) (interface{}, bool, error) {
			r, err := modifier.PartsAttribute(l, k.Name)
			return r, r == nil, err
		}},
	}
	a := accs[k.Acc%len(accs)]
	attrs := map[string]interface{}{}
	// other attributes of all kinds
	for _, o := range accs {
		if o.name != a.name {
			attrs[o.name] = wrongValue(k.Value)
		}
	}
	var value interface{}
	switch a.dim {
	case 1:
		value = parts
	case 2:
		value = [][]data.LayerPart{parts, nil, parts}
	case 3:
		value = clip.OffsetResult{{parts, parts}, {nil}}
	}
	switch {
	case k.Kind == 1:
		attrs[a.name] = value
	case k.Kind > 1:
		attrs[a.name] = wrongValue(k.Value)
	}
	if k.Kind == 0 {
		delete(attrs, a.name)
	}
	l := attrLayer{data.NewPartitionedLayer(parts), attrs}
	got, isNil, err := a.get(l)
	switch {
	case k.Kind == 0:
		if err != nil || !isNil {
			return fmt.Errorf("the missing attribute %q is %s with the error %v", a.name, describe(got), err)
		}
	case k.Kind == 1:
		if err != nil {
			return fmt.Errorf("attribute %q: %w", a.name, err)
		}
		if describe(got) != describe(value) {
			return fmt.Errorf("attribute %q is %s instead of %s", a.name, describe(got), describe(value))
		}
		if len(parts) > 0 {
			c.NonTrivial()
		}
	default:
		if err == nil {
			return fmt.Errorf("attribute %q of type %T is read without error", a.name, attrs[a.name])
		}
		if !isNil {
			return fmt.Errorf("attribute %q of type %T is read as %s besides the error", a.name, attrs[a.name], describe(got))
		}
		c.NonTrivial()
	}
	c.Label("%s kind %d", a.name, min64(int64(k.Kind), 2))
	return nil
}

func init() {
	Register("C30", "export", 2000, 30000,
		"triangle soups prepared and exported; faces compared with an independent STL parser and the built-in reader; unwritable targets; non-trivial: file compared or target not writable",
		func(t *rapid.T) exportCase {
			return exportCase{genSoup.Draw(t, "soup"), rapid.IntRange(0, 2).Draw(t, "old"), max(0, rapid.IntRange(-8, 2).Draw(t, "bad"))}
		}, checkExport)
	Register("C30", "kept", 150, 3000,
		"complete runs on a loaded model whose vertices are shared objects; loaded and prepared model compared before and after; non-trivial: every completed run",
		func(t *rapid.T) keptCase {
			o := genOpt(t)
			k := genSolidCase(t, 2, 12, o)
			return keptCase{k.Mesh, k.O}
		}, checkModelKept)
	Register("C31", "kept", 400, 8000,
		"stacks of layers with custom attributes through all steps and the G-code generator, everything compared before and after; non-trivial: at least 5 kinds of attributes appear",
		genAttrCase, checkAttrsKept)
	Register("C31", "wrong-type", 600, 12000,
		"stacks of layers in which one attribute used by the next step gets a wrong type; non-trivial: an attribute was replaced",
		func(t *rapid.T) wrongCase {
			k := wrongCase{stackCase: genAttrCase(t).stackCase}
			k.Step, k.Attr = rapid.IntRange(0, len(wrongSteps)-1).Draw(t, "step"), rapid.IntRange(0, 2).Draw(t, "attr")
			k.Layer, k.Value = rapid.IntRange(0, 6).Draw(t, "layer"), rapid.IntRange(0, 7).Draw(t, "value")
			return k
		}, checkWrongType)
	Register("C31", "accessors", 1500, 30000,
		"absent, right and wrong values for every accessor; non-trivial: non-empty right or wrong value",
		func(t *rapid.T) accCase {
			return accCase{rapid.IntRange(0, 7).Draw(t, "acc"), rapid.IntRange(0, 3).Draw(t, "kind"), genSpecs(t, "parts", 0, 3, P{}, 5000),
				rapid.IntRange(0, 7).Draw(t, "value"), rapid.SampledFrom([]string{"infill", "support", "supportInterface", "raft", ""}).Draw(t, "name")}
		}, checkAccessors)
}
