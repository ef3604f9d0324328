package main

import "pgregory.net/rapid"

// maybe draws from g with probability about 1/2 and otherwise keeps def.
func maybe[T any](t *rapid.T, label string, def T, g *rapid.Generator[T]) T {
	if rapid.Bool().Draw(t, label+"?") {
		return g.Draw(t, label)
	}
	return def
}

// few draws a number from lo to hi, rarely up to max.
func few(t *rapid.T, label string, lo, hi, max int) int {
	if rapid.IntRange(0, 24).Draw(t, label+"many?") == 0 {
		return rapid.IntRange(hi, max).Draw(t, label+"many")
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// genOpt draws a complete, sensible set of options.
func genOpt(t *rapid.T) Opt {
	o := stdOpt()
	o.W = maybe(t, "w", 400, rapid.Int64Range(200, 1000))
	o.LT = maybe(t, "lt", 200, rapid.Int64Range(40, o.W*4/5))
	o.ILT = maybe(t, "ilt", 200, rapid.Int64Range(40, o.W))
	o.ISpeed = float32(maybe(t, "ispeed", 30, rapid.IntRange(1, 300)))
	o.LSpeed = float32(maybe(t, "lspeed", 60, rapid.IntRange(1, 300)))
	o.OSpeed = float32(maybe(t, "ospeed", 40, rapid.IntRange(1, 300)))
	o.MSpeed = float32(maybe(t, "mspeed", 150, rapid.IntRange(1, 500)))
	o.Insets = few(t, "insets", 0, 6, 15)
	o.Overlap = maybe(t, "overlap", 50, rapid.IntRange(0, 100))
	o.AddOverlap = maybe(t, "addoverlap", 400, rapid.IntRange(0, 800))
	o.Infill = maybe(t, "infill", 20, rapid.IntRange(0, 100))
	o.Rot = maybe(t, "rot", 45, rapid.IntRange(-180, 360))
	o.ZigZag = rapid.Bool().Draw(t, "zigzag")
	o.Bottom = maybe(t, "bottom", 3, rapid.IntRange(0, 6))
	o.Top = maybe(t, "top", 4, rapid.IntRange(0, 6))
	o.Sup = rapid.Bool().Draw(t, "sup")
	o.SupAngle = maybe(t, "supangle", 60, rapid.IntRange(0, 85))
	o.SupTopGap = few(t, "suptopgap", 0, 5, 12)
	o.SupIface = few(t, "supiface", 0, 5, 12)
	o.SupSpacing = maybe(t, "supspacing", 2500, rapid.Int64Range(500, 5000))
	o.SupGap = maybe(t, "supgap", 600, rapid.Int64Range(0, 2000))
	o.Skirt = few(t, "skirt", 0, 4, 15)
	o.SkirtDist = maybe(t, "skirtdist", 5000, rapid.Int64Range(0, 8000))
	o.Brim = maybe(t, "brim", 0, rapid.Just(few(t, "brimlines", 0, 5, 15)))
	o.FilDia = maybe(t, "fildia", 1750, rapid.Int64Range(1000, 3000))
	o.BedI = maybe(t, "bedi", 60, rapid.IntRange(0, 120))
	o.HotI = maybe(t, "hoti", 205, rapid.IntRange(0, 300))
	o.Bed = maybe(t, "bed", 55, rapid.IntRange(0, 120))
	o.Hot = maybe(t, "hot", 200, rapid.IntRange(0, 300))
	o.TempLayers = maybe(t, "templayers", 3, rapid.IntRange(0, 12))
	o.RetSpeed = float32(maybe(t, "retspeed", 30, rapid.IntRange(0, 80)))
	o.RetLen = maybe(t, "retlen", 2000, rapid.Int64Range(0, 6000))
	o.ZHop = maybe(t, "zhop", 0, rapid.Int64Range(0, 2000))
	n := rapid.IntRange(0, 4).Draw(t, "nfan")
	o.Fan = nil
	for i, l := 0, 0; i < n; i++ {
		l += rapid.IntRange(0, 4).Draw(t, "fanl")
		o.Fan = append(o.Fan, [2]int{l, rapid.IntRange(0, 255).Draw(t, "fans")})
		l++
	}
	o.ExMult = maybe(t, "exmult", 100, rapid.IntRange(1, 300))
	o.Center = V{rapid.Int64Range(-50000, 150000).Draw(t, "centerx"), rapid.Int64Range(-50000, 150000).Draw(t, "centery"), 0}
	o.Safe, o.HasBed = rapid.Bool().Draw(t, "safe"), rapid.Bool().Draw(t, "hasbed")
	return o
}
