package c29

import (
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/zzverif/vh"
)

// job is a job of any settings, and what its placeholders stand for.
func job() (slicers.Settings, []string) {
	g := &gcode.GcodeSettings{LayerHeight: 7, PrintSpeed: vh.I("speed", 0, 100000), PrintSpeedLayer1: 11, PrintSpeedWall: 12}
	s := slicers.Settings{GcodeSettings: g,
		DateTime:            dates[vh.Choose("date", len(dates))],
		LayerHeight:         vh.F("height", 0, 10),
		WallThickness:       vh.F("walls", 0, 100),
		FillDensity:         vh.I("density", 0, 100),
		BedTemperature:      vh.I("bed", 0, 200),
		ExtruderTemperature: vh.I("extruder", 0, 400),
		LayerCount:          vh.I("count", 0, 100000),
		TopLayers:           21, BottomLayers: 22, SkirtLineCount: 23, Epsilon: 24,
	}
	f := func(x float64) string { return strconv.FormatFloat(x, 'f', 3, 64) }
	return s, []string{s.DateTime, f(s.LayerHeight), f(s.WallThickness), strconv.Itoa(s.FillDensity), strconv.Itoa(s.BedTemperature),
		strconv.Itoa(s.ExtruderTemperature), strconv.Itoa(g.PrintSpeed), strconv.Itoa(s.LayerCount)}
}

var (
	dates  = []string{"02 Jan 06 15:04 MST", "{layer_count}", "count", ""}
	places = []string{"{datetime}", "{layer_height}", "{wall_thickness}", "{fill_density}", "{bed_temperature}", "{extruder_temperature}", "{print_speed}", "{layer_count}"}
	others = []string{"", "{", "}", "{print_time}", "layer_count", "{Layer_Count}", "{ layer_count}", "{layer_", "count}", "\r\n;100% $1 \\n\t", "\x00\xff"}
)

// render makes a template of chosen pieces, and what it has to become.
func render(pieces int, vals []string) (string, string) {
	in := ""
	for i := 0; i < pieces; i++ {
		k := vh.Choose("piece"+string(rune(48+i)), len(places)+len(others))
		if k < len(places) {
			in += places[k]
		} else {
			in += others[k-len(places)]
		}
	}
	out := ""
next:
	for i := 0; i < len(in); {
		for k, p := range places {
			if strings.HasPrefix(in[i:], p) {
				out += vals[k]
				i += len(p)
				continue next
			}
		}
		out += in[i : i+1]
		i++
	}
	return in, out
}

//vh:bounds templates of three pieces: placeholders, parts of them and other text; all settings
func H_Template() {
	s, vals := job()
	in, out := render(3, vals)
	vh.Write("t.txt", in)
	got := primitives.PrepareDataFile("t.txt", s.ToMap())
	vh.Assert(got == out, "known placeholders are replaced by the settings and nothing else is changed")
}

// H_Orders: in every order of the settings.
//
//vh:bounds a placeholder between parts of others, all settings, every order of the map
//vh:opt maporder
func H_Orders() {
	s, vals := job()
	in, out := "", ""
	k := vh.Choose("which", len(places))
	switch vh.Choose("around", 3) {
	case 0:
		in, out = "{layer_"+places[k]+"}", "{layer_"+vals[k]+"}"
	case 1:
		in, out = "{"+places[k]+"}", "{"+vals[k]+"}"
	case 2:
		in, out = places[k]+places[0], vals[k]+vals[0]
	}
	vh.Write("t.txt", in)
	m := s.ToMap()
	few := map[string]string{places[k]: m[places[k]], places[0]: m[places[0]], places[7]: m[places[7]]}
	vh.Assert(primitives.PrepareDataFile("t.txt", few) == out, "what a placeholder stands for does not depend on the others")
}

//vh:bounds each setting, written between other text twice
func H_Each() {
	s, vals := job()
	k := vh.Choose("which", len(places))
	in := "a" + places[k] + "b" + places[k] + "{c}"
	vh.Write("t.txt", in)
	got := primitives.PrepareDataFile("t.txt", s.ToMap())
	vh.Assert(got == "a"+vals[k]+"b"+vals[k]+"{c}", "a placeholder is replaced wherever it is")
	vh.Assert(strings.Count(got, "{") == 1+2*strings.Count(vals[k], "{"), "a placeholder is replaced by the setting")
}
