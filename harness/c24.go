package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/spf13/pflag"
	"pgregory.net/rapid"
)

// flagDef is the documented meaning of a flag.
type flagDef struct {
	name, kind string
	field      func(o *data.Options) interface{} // pointer to the field
}

var flagTable = []flagDef{
	{"version", "bool", func(o *data.Options) interface{} { return &o.GoSlice.PrintVersion }},
	{"output", "string", func(o *data.Options) interface{} { return &o.GoSlice.OutputFilePath }},
	{"meld-distance", "um", func(o *data.Options) interface{} { return &o.Slicing.MeldDistance }},
	{"join-polygon-snap-distance", "um", func(o *data.Options) interface{} { return &o.Slicing.JoinPolygonSnapDistance }},
	{"finish-polygon-snap-distance", "um", func(o *data.Options) interface{} { return &o.Slicing.FinishPolygonSnapDistance }},
	{"initial-layer-speed", "mm", func(o *data.Options) interface{} { return &o.Print.IntialLayerSpeed }},
	{"layer-speed", "mm", func(o *data.Options) interface{} { return &o.Print.LayerSpeed }},
	{"outer-perimeter-speed", "mm", func(o *data.Options) interface{} { return &o.Print.OuterPerimeterSpeed }},
	{"move-speed", "mm", func(o *data.Options) interface{} { return &o.Print.MoveSpeed }},
	{"initial-layer-thickness", "um", func(o *data.Options) interface{} { return &o.Print.InitialLayerThickness }},
	{"layer-thickness", "um", func(o *data.Options) interface{} { return &o.Print.LayerThickness }},
	{"inset-count", "int", func(o *data.Options) interface{} { return &o.Print.InsetCount }},
	{"infill-overlap-percent", "int", func(o *data.Options) interface{} { return &o.Print.InfillOverlapPercent }},
	{"additional-internal-infill-overlap-percent", "int", func(o *data.Options) interface{} { return &o.Print.AdditionalInternalInfillOverlapPercent }},
	{"infill-percent", "int", func(o *data.Options) interface{} { return &o.Print.InfillPercent }},
	{"infill-rotation-degree", "int", func(o *data.Options) interface{} { return &o.Print.InfillRotationDegree }},
	{"infill-zig-zag", "bool", func(o *data.Options) interface{} { return &o.Print.InfillZigZag }},
	{"number-bottom-layers", "int", func(o *data.Options) interface{} { return &o.Print.NumberBottomLayers }},
	{"number-top-layers", "int", func(o *data.Options) interface{} { return &o.Print.NumberTopLayers }},
	{"support-enabled", "bool", func(o *data.Options) interface{} { return &o.Print.Support.Enabled }},
	{"support-threshold-angle", "int", func(o *data.Options) interface{} { return &o.Print.Support.ThresholdAngle }},
	{"support-top-gap-layers", "int", func(o *data.Options) interface{} { return &o.Print.Support.TopGapLayers }},
	{"support-interface-layers", "int", func(o *data.Options) interface{} { return &o.Print.Support.InterfaceLayers }},
	{"support-pattern-spacing", "mm", func(o *data.Options) interface{} { return &o.Print.Support.PatternSpacing }},
	{"support-gap", "mm", func(o *data.Options) interface{} { return &o.Print.Support.Gap }},
	{"skirt-count", "int", func(o *data.Options) interface{} { return &o.Print.BrimSkirt.SkirtCount }},
	{"skirt-distance", "mm", func(o *data.Options) interface{} { return &o.Print.BrimSkirt.SkirtDistance }},
	{"brim-count", "int", func(o *data.Options) interface{} { return &o.Print.BrimSkirt.BrimCount }},
	{"filament-diameter", "um", func(o *data.Options) interface{} { return &o.Filament.FilamentDiameter }},
	{"initial-bed-temperature", "int", func(o *data.Options) interface{} { return &o.Filament.InitialBedTemperature }},
	{"initial-hot-end-temperature", "int", func(o *data.Options) interface{} { return &o.Filament.InitialHotEndTemperature }},
	{"bed-temperature", "int", func(o *data.Options) interface{} { return &o.Filament.BedTemperature }},
	{"hot-end-temperature", "int", func(o *data.Options) interface{} { return &o.Filament.HotEndTemperature }},
	{"initial-temperature-layer-count", "int", func(o *data.Options) interface{} { return &o.Filament.InitialTemperatureLayerCount }},
	{"retraction-speed", "mm", func(o *data.Options) interface{} { return &o.Filament.RetractionSpeed }},
	{"retraction-length", "mm", func(o *data.Options) interface{} { return &o.Filament.RetractionLength }},
	{"retraction-z-hop", "mm", func(o *data.Options) interface{} { return &o.Filament.RetractionZHop }},
	{"fan-speed", "fan", func(o *data.Options) interface{} { return &o.Filament.FanSpeed }},
	{"extrusion-multiplier", "int", func(o *data.Options) interface{} { return &o.Filament.ExtrusionMultiplier }},
	{"extrusion-width", "um", func(o *data.Options) interface{} { return &o.Printer.ExtrusionWidth }},
	{"center", "vec", func(o *data.Options) interface{} { return &o.Printer.Center }},
	{"force-safe-gcode", "bool", func(o *data.Options) interface{} { return &o.Printer.ForceSafeStartStopGCode }},
	{"has-heated-bed", "bool", func(o *data.Options) interface{} { return &o.Printer.HasHeatedBed }},
	{"start-gcode", "hunk", func(o *data.Options) interface{} { return &o.Printer.StartGCode }},
	{"end-gcode", "hunk", func(o *data.Options) interface{} { return &o.Printer.EndGCode }},
}

func flagByName(n string) *flagDef {
	for i := range flagTable {
		if flagTable[i].name == n {
			return &flagTable[i]
		}
	}
	return nil
}

// setField stores the value the text stands for.
func (f flagDef) set(o *data.Options, v string) error {
	p := f.field(o)
	switch f.kind {
	case "bool":
		b, err := strconv.ParseBool(v)
		*p.(*bool) = b
		return err
	case "string":
		*p.(*string) = v
	case "int":
		n, err := strconv.ParseInt(v, 0, 64)
		*p.(*int) = int(n)
		return err
	case "um":
		n, err := strconv.ParseInt(v, 0, 64)
		*p.(*data.Micrometer) = data.Micrometer(n)
		return err
	case "mm":
		n, err := strconv.ParseFloat(v, 32)
		*p.(*data.Millimeter) = data.Millimeter(float32(n))
		return err
	case "vec":
		w := strings.Split(v, "_")
		var c [3]int64
		for i := range c {
			var err error
			if c[i], err = strconv.ParseInt(w[i], 0, 64); err != nil {
				return err
			}
		}
		*p.(*data.MicroVec3) = vec(V(c))
	case "fan":
		m := map[int]int{}
		for _, kv := range strings.Split(v, ",") {
			i := strings.IndexByte(kv, '=')
			a, err := strconv.Atoi(kv[:i])
			if err != nil {
				return err
			}
			b, err := strconv.Atoi(kv[i+1:])
			if err != nil {
				return err
			}
			m[a] = b
		}
		p.(*data.FanSpeedOptions).LayerToSpeedLUT = m
	case "hunk":
		var rows []string
		for _, r := range strings.Split(v, "\n") {
			if strings.TrimSpace(r) != "" {
				rows = append(rows, r)
			}
		}
		p.(*data.GCodeHunk).GCodeLines = rows
	}
	return nil
}

// sameOptions compares all settings.
func sameOptions(a, b data.Options) error {
	a.GoSlice.Logger, b.GoSlice.Logger = nil, nil
	for _, f := range flagTable {
		x, y := reflect.ValueOf(f.field(&a)).Elem().Interface(), reflect.ValueOf(f.field(&b)).Elem().Interface()
		switch f.kind {
		case "vec":
			if unvec(x.(data.MicroVec3)) != unvec(y.(data.MicroVec3)) {
				return fmt.Errorf("%s is %v instead of %v", f.name, unvec(x.(data.MicroVec3)), unvec(y.(data.MicroVec3)))
			}
		case "hunk":
			if strings.Join(x.(data.GCodeHunk).GCodeLines, "\n") != strings.Join(y.(data.GCodeHunk).GCodeLines, "\n") {
				return fmt.Errorf("%s is %q instead of %q", f.name, x, y)
			}
		default:
			if !reflect.DeepEqual(x, y) {
				return fmt.Errorf("%s is %v instead of %v", f.name, x, y)
			}
		}
	}
	if a.GoSlice.InputFilePath != b.GoSlice.InputFilePath {
		return fmt.Errorf("the input path is %q instead of %q", a.GoSlice.InputFilePath, b.GoSlice.InputFilePath)
	}
	return nil
}

type flagArg struct {
	Name  string `json:"name"`
	Value string `json:"value"`
	Style int    `json:"style"` // 0 --name=value, 1 --name value, 2 shorthand, 3 plain (bool true)
}

type flagCase struct {
	Flags []flagArg `json:"flags"`
	Path  string    `json:"path"`
	At    int       `json:"at"` // place of the path between the flags
	Extra bool      `json:"extra"`
}

func (f flagArg) args() []string {
	short := map[string]string{"version": "-v", "output": "-o"}
	def := flagByName(f.Name)
	switch {
	case f.Style == 3 && def != nil && def.kind == "bool":
		return []string{"--" + f.Name}
	case f.Style == 1 && (def == nil || def.kind != "bool"):
		return []string{"--" + f.Name, f.Value}
	case f.Style == 2 && f.Name == "output":
		return []string{short[f.Name], f.Value}
	}
	return []string{"--" + f.Name + "=" + f.Value}
}

func (k flagCase) args() []string {
	var out []string
	for i, f := range k.Flags {
		if i == k.At && k.Path != "" {
			out = append(out, k.Path)
		}
		out = append(out, f.args()...)
	}
	if k.At >= len(k.Flags) && k.Path != "" {
		out = append(out, k.Path)
	}
	if k.Extra && k.Path != "" {
		out = append(out, "other.stl")
	}
	return out
}

func checkFlags(c *Ctx, k flagCase) error {
	want := data.DefaultOptions()
	for _, f := range k.Flags {
		v := f.Value
		def := flagByName(f.Name)
		if f.Style == 3 && def.kind == "bool" {
			v = "true"
		}
		if err := def.set(&want, v); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	want.GoSlice.InputFilePath = k.Path
	if k.Path == "" && k.Extra {
		want.GoSlice.InputFilePath = ""
	}

	args, cl := os.Args, pflag.CommandLine
	defer func() { os.Args, pflag.CommandLine = args, cl }()
	var msg bytes.Buffer
	pflag.CommandLine = pflag.NewFlagSet("goslice", pflag.ContinueOnError)
	pflag.CommandLine.SetOutput(&msg)
	os.Args = append([]string{"goslice"}, k.args()...)
	got := data.ParseFlags()
	if err := sameOptions(got, want); err != nil {
		return fmt.Errorf("%q: %w (%s)", k.args(), err, msg.String())
	}
	// every documented flag is there
	n := 0
	var missing error
	pflag.CommandLine.VisitAll(func(f *pflag.Flag) {
		n++
		if f.Usage == "" {
			missing = fmt.Errorf("the flag --%s is not documented", f.Name)
		}
	})
	for _, f := range flagTable {
		if pflag.CommandLine.Lookup(f.name) == nil {
			missing = fmt.Errorf("there is no flag --%s", f.name)
		}
	}
	if missing != nil {
		return missing
	}
	if len(k.Flags) > 1 {
		c.NonTrivial()
	}
	return nil
}

func genFlagValue(t *rapid.T, kind string) string {
	num := func(lo, hi int64) string {
		v := rapid.Int64Range(lo, hi).Draw(t, "num")
		switch rapid.IntRange(0, 9).Draw(t, "base") {
		case 0:
			if v >= 0 {
				return "0x" + strconv.FormatInt(v, 16)
			}
		case 1:
			if v >= 0 {
				return "+" + strconv.FormatInt(v, 10)
			}
		}
		return strconv.FormatInt(v, 10)
	}
	switch kind {
	case "bool":
		return rapid.SampledFrom([]string{"true", "false", "1", "0", "T", "F", "TRUE", "False"}).Draw(t, "bool")
	case "string":
		return rapid.SampledFrom([]string{"out.gcode", "a b.gcode", "/tmp/x", "-", "", "ü.g", "a=b", "out.stl.gcode"}).Draw(t, "str")
	case "int":
		return num(-1000, 100000)
	case "um":
		return num(-1000000, 10000000)
	case "mm":
		switch rapid.IntRange(0, 5).Draw(t, "mmstyle") {
		case 0:
			return strconv.Itoa(rapid.IntRange(-100, 1000).Draw(t, "mm"))
		case 1:
			return rapid.SampledFrom([]string{"1e2", ".5", "5.", "-0.25", "+3", "1.5e-1"}).Draw(t, "mm")
		}
		return strconv.FormatFloat(float64(rapid.IntRange(-10000, rapid.SampledFrom([]int{1000000, 1000000, 8000000}).Draw(t, "mmmax")).Draw(t, "mm"))/1000, 'f', -1, 64)
	case "vec":
		return num(-300000, 300000) + "_" + num(-300000, 300000) + "_" + num(-1000, 1000)
	case "fan":
		var s []string
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			s = append(s, fmt.Sprintf("%d=%d", rapid.IntRange(0, 300).Draw(t, "l"), rapid.IntRange(0, 255).Draw(t, "s")))
		}
		return strings.Join(s, ",")
	case "hunk":
		var s []string
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			s = append(s, genCodeLine(t))
		}
		return strings.Join(s, "\n")
	}
	panic(kind)
}

// badValues are rejected for the kind.
func genBadValue(t *rapid.T, kind string) string {
	bad := map[string][]string{
		"bool": {"yes", "2", "", "tru", "-1"},
		"int":  {"", "x", "1.5", "1e3", "9223372036854775808", "--", "5mm", "0x", "1 2", "NaN"},
		"um":   {"", "x", "1.5", "1e3", "9223372036854775808", "-9223372036854775809", "5um", "0xg", "1,5"},
		"mm":   {"", "x", "1,5", "NaN", "nan", "Inf", "-inf", "+Infinity", "1e39", "-1e60", "5mm", "1.5.2", "--1", "1 "},
		"vec":  {"", "1", "1_2", "1_2_3_4", "1_2_x", "x_1_2", "1_y_3", "1,2,3", "1_2_", "_1_2", "1.5_2_3", "1_2_9223372036854775808"},
		"fan":  {"", "1", "=", "1=", "=5", "1=256", "1=-1", "-1=5", "1=5,", ",1=5", "1=5,2=300", "1=5=6", "a=5", "1=b", "1:5", "1=5;2=6", "1=5,x", "1.5=3", "300=1e2"},
	}
	return rapid.SampledFrom(bad[kind]).Draw(t, "bad")
}

func genFlags(t *rapid.T, max int, exclude ...string) []flagArg {
	var out []flagArg
	for i := rapid.IntRange(0, max).Draw(t, "nflags"); i > 0; i-- {
		f := rapid.SampledFrom(flagTable).Draw(t, "flag")
		skip := false
		for _, e := range exclude {
			skip = skip || e == f.name
		}
		if !skip {
			out = append(out, flagArg{f.name, genFlagValue(t, f.kind), rapid.IntRange(0, 3).Draw(t, "style")})
		}
	}
	return out
}

// ---- round trip of values

type valueCase struct {
	Kind  string `json:"kind"`
	Value string `json:"value"`
	Bad   bool   `json:"bad"`
}

func checkValue(c *Ctx, k valueCase) error {
	fresh := func() (pflag.Value, func() interface{}) {
		switch k.Kind {
		case "um":
			v := data.Micrometer(4711)
			return &v, func() interface{} { return v }
		case "mm":
			v := data.Millimeter(47.5)
			return &v, func() interface{} { return v }
		case "vec":
			v := vec(V{1, 2, 3})
			return v.(pflag.Value), func() interface{} { return unvec(v) }
		case "fan":
			v := data.FanSpeedOptions{LayerToSpeedLUT: map[int]int{7: 8}}
			return &v, func() interface{} { return v }
		case "hunk":
			v := data.NewGCodeHunk([]string{"X"})
			return &v, func() interface{} { return v.GCodeLines }
		}
		panic(k.Kind)
	}
	a, av := fresh()
	before := fmt.Sprint(av())
	err := a.Set(k.Value)
	if k.Bad {
		if err == nil {
			return fmt.Errorf("%s accepts %q as %v", k.Kind, k.Value, av())
		}
		if got := fmt.Sprint(av()); got != before {
			return fmt.Errorf("%s: the rejected value %q changes the option to %v", k.Kind, k.Value, got)
		}
		c.NonTrivial()
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s rejects %q: %v", k.Kind, k.Value, err)
	}
	var want data.Options
	for _, f := range flagTable {
		if f.kind == k.Kind {
			if err := f.set(&want, k.Value); err != nil {
				return fmt.Errorf("harness: %w", err)
			}
			w := reflect.ValueOf(f.field(&want)).Elem().Interface()
			switch k.Kind {
			case "vec":
				w = unvec(w.(data.MicroVec3))
			case "hunk":
				w = w.(data.GCodeHunk).GCodeLines
			}
			if fmt.Sprintf("%#v", w) != fmt.Sprintf("%#v", av()) && !(k.Kind == "hunk" && len(w.([]string)) == 0 && len(av().([]string)) == 0) {
				return fmt.Errorf("%s: %q is read as %v instead of %v", k.Kind, k.Value, av(), w)
			}
			break
		}
	}
	s := a.String()
	b, bv := fresh()
	if err := b.Set(s); err != nil {
		return fmt.Errorf("%s: the own representation %q of %q is rejected: %v", k.Kind, s, k.Value, err)
	}
	if x, y := fmt.Sprintf("%#v", av()), fmt.Sprintf("%#v", bv()); x != y {
		return fmt.Errorf("%s: %q is written as %q and read back as %v instead of %v", k.Kind, k.Value, s, y, x)
	}
	c.NonTrivial()
	return nil
}

// ---- the command

type cliCase struct {
	Mode  string   `json:"mode"` // ok, bad, nopath, nofile, broken, nowrite, version, unknown
	Flags flagCase `json:"flags"`
	Out   string   `json:"out"`   // "", "o", "output"
	In    string   `json:"in"`    // file name
	Wrong flagArg  `json:"wrong"` // for bad
	Size  int64    `json:"size"`
}

func checkCLI(c *Ctx, k cliCase) error {
	if cliPath == "" {
		return fmt.Errorf("harness: no command")
	}
	dir, err := os.MkdirTemp(scratchDir, "cli")
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, k.In)
	s := Solid{Kind: "voxel", Xs: []int64{0, k.Size}, Ys: []int64{0, k.Size + 1000}, Zs: []int64{0, 900}, Fill: []int{1}}
	stl := writeBinarySTL("model", ftris(s.Tris()))
	if k.Mode == "broken" {
		stl = stl[:len(stl)/2]
	}
	if k.Mode != "nofile" {
		if err := os.WriteFile(in, stl, 0o644); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	fc := k.Flags
	fc.Path = in
	target := in + ".gcode"
	if k.Out != "" {
		target = filepath.Join(dir, "result here.g")
		if k.Mode == "nowrite" {
			target = filepath.Join(dir, "missing", "x.gcode")
		}
		st := 0
		if k.Out == "o" {
			st = 2
		}
		fc.Flags = append(append([]flagArg(nil), fc.Flags...), flagArg{"output", target, st})
	} else if k.Mode == "nowrite" {
		if err := os.MkdirAll(target, 0o755); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	switch k.Mode {
	case "bad", "unknown":
		at := k.Flags.At % (len(fc.Flags) + 1)
		fs := append([]flagArg(nil), fc.Flags[:at]...)
		fs = append(fs, k.Wrong)
		fc.Flags = append(fs, fc.Flags[at:]...)
	case "nopath":
		fc.Path = ""
	case "version":
		fc.Flags = append([]flagArg{{"version", "true", 3}}, fc.Flags...)
	}
	args := fc.args()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, cliPath, args...)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	runErr := cmd.Run()
	if ctx.Err() != nil {
		return fmt.Errorf("harness: time limit")
	}
	code := cmd.ProcessState.ExitCode()
	if k.Mode != "ok" && runErr == nil && k.Mode != "version" {
		return fmt.Errorf("%s: goslice %q ends with status 0 (%s%s)", k.Mode, args, tail(stdout.String()), tail(stderr.String()))
	}
	if strings.Contains(stderr.String(), "goroutine ") {
		return fmt.Errorf("%s: goslice %q crashes: %s", k.Mode, args, tail(stderr.String()))
	}
	// which files are there
	var files []string
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && p != in {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	if b, err := os.ReadFile(in); k.Mode != "nofile" && (err != nil || !bytes.Equal(b, stl)) {
		return fmt.Errorf("goslice %q changes its input file", args)
	}
	if k.Mode != "ok" {
		if len(files) > 0 {
			return fmt.Errorf("%s: goslice %q writes %v", k.Mode, args, files)
		}
		if k.Mode == "version" {
			if code != 0 || !strings.Contains(stdout.String(), "GoSlice") {
				return fmt.Errorf("goslice %q: status %d, output %q", args, code, tail(stdout.String()))
			}
		} else if stdout.Len()+stderr.Len() == 0 {
			return fmt.Errorf("%s: goslice %q fails silently", k.Mode, args)
		}
		c.NonTrivial()
		c.Label("%s", k.Mode)
		return nil
	}
	if code != 0 {
		return fmt.Errorf("goslice %q ends with status %d: %s%s", args, code, tail(stdout.String()), tail(stderr.String()))
	}
	if len(files) != 1 || files[0] != target {
		return fmt.Errorf("goslice %q writes %v instead of %v", args, files, target)
	}
	got, err := os.ReadFile(target)
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	// the same run as library
	o := data.DefaultOptions()
	o.GoSlice.Logger = (Opt{}).Data().GoSlice.Logger
	for _, f := range fc.Flags {
		v := f.Value
		if f.Style == 3 && flagByName(f.Name).kind == "bool" {
			v = "true"
		}
		if err := flagByName(f.Name).set(&o, v); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	o.GoSlice.InputFilePath = in
	gs := goslice.NewGoSlice(o)
	w := &memWriter{}
	gs.Writer = w
	if err := gs.Process(); err != nil {
		return fmt.Errorf("the library fails where the command does not: %w", err)
	}
	if w.dest != target {
		return fmt.Errorf("the library writes to %q instead of %q", w.dest, target)
	}
	if string(got) != w.gcode {
		return fmt.Errorf("goslice %q writes other G-code than the library with the same settings: %s", args, firstDiff(string(got), w.gcode))
	}
	c.NonTrivial()
	c.Label("ok")
	return nil
}

func tail(s string) string {
	if len(s) > 300 {
		return "..." + s[len(s)-300:]
	}
	return s
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := "nothing"
			if i < len(y) {
				o = y[i]
			}
			return fmt.Sprintf("line %d is %q and %q", i+1, x[i], o)
		}
	}
	return fmt.Sprintf("%d and %d lines", len(x), len(y))
}

// genRunFlags draws flags with values a small model is sliced with.
func genRunFlags(t *rapid.T) []flagArg {
	o := genOpt(t)
	d := o.Data()
	var out []flagArg
	for i := rapid.IntRange(0, 10).Draw(t, "nflags"); i > 0; i-- {
		f := rapid.SampledFrom(flagTable).Draw(t, "flag")
		if f.kind == "string" || f.name == "version" {
			continue
		}
		var v string
		switch p := f.field(&d).(type) {
		case *bool:
			v = strconv.FormatBool(*p)
		case *int:
			v = strconv.Itoa(*p)
		case *data.Micrometer:
			v = strconv.FormatInt(int64(*p), 10)
		case *data.Millimeter:
			v = strconv.FormatFloat(float64(*p), 'g', -1, 32)
		case *data.MicroVec3:
			v = fmt.Sprintf("%d_%d_%d", o.Center[0], o.Center[1], o.Center[2])
		case *data.FanSpeedOptions:
			if len(o.Fan) == 0 {
				continue
			}
			var s []string
			for _, kv := range o.Fan {
				s = append(s, fmt.Sprintf("%d=%d", kv[0], kv[1]))
			}
			v = strings.Join(s, ",")
		case *data.GCodeHunk:
			v = genFlagValue(t, "hunk")
		}
		if f.kind == "um" && (f.name == "layer-thickness" || f.name == "initial-layer-thickness") {
			v = strconv.Itoa(rapid.IntRange(100, 400).Draw(t, "lt"))
		}
		out = append(out, flagArg{f.name, v, rapid.IntRange(0, 3).Draw(t, "style")})
	}
	return out
}

func init() {
	Register("C24", "flags", 20000, 500000,
		"command lines of 0..12 flags (repeated ones too, all notations, any position of the path, all 45 flags) parsed by ParseFlags; all settings compared with a reference table; non-trivial: at least two flags",
		func(t *rapid.T) flagCase {
			return flagCase{Flags: genFlags(t, 12), Path: rapid.SampledFrom([]string{"", "model.stl", "/a/b c.stl", "ü.stl"}).Draw(t, "path"), At: rapid.IntRange(0, 12).Draw(t, "at"), Extra: rapid.IntRange(0, 4).Draw(t, "extra") == 0}
		}, checkFlags)
	Register("C24", "values", 20000, 500000,
		"valid and malformed values of every option type read, written and read back; non-trivial: all",
		func(t *rapid.T) valueCase {
			k := valueCase{Kind: rapid.SampledFrom([]string{"um", "mm", "vec", "fan", "hunk"}).Draw(t, "kind")}
			k.Bad = k.Kind != "hunk" && rapid.Bool().Draw(t, "bad?")
			if k.Bad {
				k.Value = genBadValue(t, k.Kind)
			} else {
				k.Value = genFlagValue(t, k.Kind)
			}
			return k
		}, checkValue)
	Register("C24", "command", 1600, 40000,
		"the built command run on a block with 0..10 valid flags; with a malformed or unknown flag, without path, with a missing or truncated file, an unwritable target, or -v; status, output and files checked, and the G-code compared with a library run; non-trivial: all",
		func(t *rapid.T) cliCase {
			k := cliCase{Mode: rapid.SampledFrom([]string{"ok", "ok", "ok", "bad", "bad", "unknown", "nopath", "nofile", "broken", "nowrite", "version"}).Draw(t, "mode")}
			k.Flags = flagCase{Flags: genRunFlags(t), At: rapid.IntRange(0, 10).Draw(t, "at")}
			k.Out = rapid.SampledFrom([]string{"", "o", "output"}).Draw(t, "out")
			k.In = rapid.SampledFrom([]string{"model.stl", "two words.STL", "noending", "ü.stl", "x.gcode"}).Draw(t, "in")
			k.Size = rapid.Int64Range(3000, 12000).Draw(t, "size")
			switch k.Mode {
			case "bad":
				f := rapid.SampledFrom(flagTable).Filter(func(f flagDef) bool { return f.kind != "string" && f.kind != "hunk" }).Draw(t, "badflag")
				k.Wrong = flagArg{f.name, genBadValue(t, f.kind), 0}
			case "unknown":
				k.Wrong = flagArg{rapid.SampledFrom([]string{"no-such-flag", "Layer-Speed", "layer_speed", "infill"}).Draw(t, "unknown"), "5", 0}
			}
			return k
		}, checkCLI)
}
