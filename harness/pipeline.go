package main

import (
	"fmt"
	"io"
	"log"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/optimizer"
	"github.com/aligator/goslice/slicer"
)

// Opt is the JSON form of data.Options. Lengths are micrometres.
type Opt struct {
	Meld   int64 `json:"meld"`
	Join   int64 `json:"join"`
	Finish int64 `json:"finish"`

	ISpeed float32 `json:"ispeed"`
	LSpeed float32 `json:"lspeed"`
	OSpeed float32 `json:"ospeed"`
	MSpeed float32 `json:"mspeed"`

	ILT int64 `json:"ilt"`
	LT  int64 `json:"lt"`

	Insets     int  `json:"insets"`
	Overlap    int  `json:"overlap"`
	AddOverlap int  `json:"addoverlap"`
	Infill     int  `json:"infill"`
	Rot        int  `json:"rot"`
	ZigZag     bool `json:"zigzag"`
	Bottom     int  `json:"bottom"`
	Top        int  `json:"top"`

	Sup        bool  `json:"sup"`
	SupAngle   int   `json:"supangle"`
	SupTopGap  int   `json:"suptopgap"`
	SupIface   int   `json:"supiface"`
	SupSpacing int64 `json:"supspacing"`
	SupGap     int64 `json:"supgap"`

	Skirt     int   `json:"skirt"`
	SkirtDist int64 `json:"skirtdist"`
	Brim      int   `json:"brim"`

	FilDia     int64    `json:"fildia"`
	BedI       int      `json:"bedi"`
	HotI       int      `json:"hoti"`
	Bed        int      `json:"bed"`
	Hot        int      `json:"hot"`
	TempLayers int      `json:"templayers"`
	RetSpeed   float32  `json:"retspeed"`
	RetLen     int64    `json:"retlen"`
	ZHop       int64    `json:"zhop"`
	Fan        [][2]int `json:"fan,omitempty"`
	ExMult     int      `json:"exmult"`

	W      int64    `json:"w"`
	Center V        `json:"center"`
	Safe   bool     `json:"safe"`
	HasBed bool     `json:"hasbed"`
	Start  []string `json:"start,omitempty"`
	End    []string `json:"end,omitempty"`
}

// stdOpt are the documented defaults.
func stdOpt() Opt {
	return Opt{
		Meld: 30, Join: 160, Finish: 1000,
		ISpeed: 30, LSpeed: 60, OSpeed: 40, MSpeed: 150,
		ILT: 200, LT: 200,
		Insets: 2, Overlap: 50, AddOverlap: 400, Infill: 20, Rot: 45, Bottom: 3, Top: 4,
		SupAngle: 60, SupTopGap: 3, SupIface: 2, SupSpacing: 2500, SupGap: 600,
		Skirt: 2, SkirtDist: 5000,
		FilDia: 1750, BedI: 60, HotI: 205, Bed: 55, Hot: 200, TempLayers: 3, RetSpeed: 30, RetLen: 2000, ExMult: 100,
		Fan: [][2]int{{2, 255}},
		W:   400, Center: V{100000, 100000, 0}, Safe: true, HasBed: true,
		Start: []string{"G1 Z5 F5000 ; lift nozzle"},
		End:   []string{"M84 ;steppers off"},
	}
}

func mm(um int64) data.Millimeter { return data.Millimeter(mm32(um)) }

// Data builds the options for the code under test.
func (o Opt) Data() data.Options {
	d := data.DefaultOptions()
	d.GoSlice.Logger = log.New(io.Discard, "", 0)
	d.Slicing = data.SlicingOptions{MeldDistance: data.Micrometer(o.Meld), JoinPolygonSnapDistance: data.Micrometer(o.Join), FinishPolygonSnapDistance: data.Micrometer(o.Finish)}
	p := &d.Print
	p.IntialLayerSpeed, p.LayerSpeed = data.Millimeter(o.ISpeed), data.Millimeter(o.LSpeed)
	p.OuterPerimeterSpeed, p.MoveSpeed = data.Millimeter(o.OSpeed), data.Millimeter(o.MSpeed)
	p.InitialLayerThickness, p.LayerThickness = data.Micrometer(o.ILT), data.Micrometer(o.LT)
	p.InsetCount, p.InfillOverlapPercent, p.AdditionalInternalInfillOverlapPercent = o.Insets, o.Overlap, o.AddOverlap
	p.InfillPercent, p.InfillRotationDegree, p.InfillZigZag = o.Infill, o.Rot, o.ZigZag
	p.NumberBottomLayers, p.NumberTopLayers = o.Bottom, o.Top
	p.Support = data.SupportOptions{Enabled: o.Sup, ThresholdAngle: o.SupAngle, TopGapLayers: o.SupTopGap, InterfaceLayers: o.SupIface, PatternSpacing: mm(o.SupSpacing), Gap: mm(o.SupGap)}
	p.BrimSkirt = data.BrimSkirtOptions{SkirtCount: o.Skirt, SkirtDistance: mm(o.SkirtDist), BrimCount: o.Brim}
	f := &d.Filament
	f.FilamentDiameter = data.Micrometer(o.FilDia)
	f.InitialBedTemperature, f.InitialHotEndTemperature, f.BedTemperature, f.HotEndTemperature = o.BedI, o.HotI, o.Bed, o.Hot
	f.InitialTemperatureLayerCount = o.TempLayers
	f.RetractionSpeed, f.RetractionLength, f.RetractionZHop = data.Millimeter(o.RetSpeed), mm(o.RetLen), mm(o.ZHop)
	f.FanSpeed = data.FanSpeedOptions{LayerToSpeedLUT: map[int]int{}}
	for _, kv := range o.Fan {
		f.FanSpeed.LayerToSpeedLUT[kv[0]] = kv[1]
	}
	f.ExtrusionMultiplier = o.ExMult
	q := &d.Printer
	q.ExtrusionWidth = data.Micrometer(o.W)
	q.Center = vec(o.Center)
	q.ForceSafeStartStopGCode, q.HasHeatedBed = o.Safe, o.HasBed
	q.StartGCode, q.EndGCode = data.NewGCodeHunk(o.Start), data.NewGCodeHunk(o.End)
	return d
}

type memReader struct{ m data.Model }

func (r memReader) Read(string) (data.Model, error) { return r.m, nil }

type memWriter struct {
	gcode string
	dest  string
	calls int
}

func (w *memWriter) Write(g, d string) error { w.gcode, w.dest, w.calls = g, d, w.calls+1; return nil }

// layerTap records what the pipeline hands on.
type layerTap struct {
	handler.Named
	layers *[]data.PartitionedLayer
	om     *data.OptimizedModel
}

func (t layerTap) Init(m data.OptimizedModel) { *t.om = m }
func (t layerTap) Modify(l []data.PartitionedLayer) error {
	*t.layers = append([]data.PartitionedLayer(nil), l...)
	return nil
}

// Run is the result of one complete pipeline run.
type Run struct {
	G      string
	Layers []data.PartitionedLayer // after all modifiers
	OM     data.OptimizedModel
}

// runPipeline runs the whole built-in pipeline on a model in memory.
func runPipeline(o Opt, ts []Tri) (Run, error) { return runPipelineData(o.Data(), ts) }

func runPipelineData(d data.Options, ts []Tri) (Run, error) {
	var r Run
	gs := goslice.NewGoSlice(d)
	w := &memWriter{}
	gs.Reader = memReader{memModel{ts}}
	gs.Writer = w
	gs.Modifiers = append(gs.Modifiers, layerTap{Named: handler.Named{Name: "tap"}, layers: &r.Layers, om: &r.OM})
	if err := gs.Process(); err != nil {
		return r, err
	}
	if w.calls != 1 {
		return r, fmt.Errorf("the G-code was written %d times", w.calls)
	}
	r.G = w.gcode
	return r, nil
}

// optimizeOnly runs the optimizer.
func optimizeOnly(o Opt, ts []Tri) (data.OptimizedModel, error) {
	d := o.Data()
	return optimizer.NewOptimizer(&d).Optimize(memModel{ts})
}

// sliceOnly runs optimizer and slicer.
func sliceOnly(o Opt, ts []Tri) (data.OptimizedModel, []data.PartitionedLayer, error) {
	d := o.Data()
	om, err := optimizer.NewOptimizer(&d).Optimize(memModel{ts})
	if err != nil {
		return nil, nil, err
	}
	l, err := slicer.NewSlicer(&d).Slice(om)
	return om, l, err
}
