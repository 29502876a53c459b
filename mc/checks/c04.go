package checks

import (
	"fmt"
	"reflect"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{ID: "C04", Run: c04,
		Rule: "for every explored font and glyph list, position i of the subset has points, outline, bounds, advance, bearing, instructions and components of the i-th requested glyph, every reachable component is appended exactly once, and an unresolvable glyph is an error",
		Assumptions: []string{
			"glyph 0 may be kept or emptied, unless it is a component of a kept glyph",
			"composites nested more than 6 deep may be refused or kept",
			"the order of the appended components is left open"}})
}

// ttGlyph observes one glyph by the API.
func ttGlyph(f *font.SFNT, id uint16) sut.Glyph {
	g := sut.Glyph{}
	p, err := sut.Path(f, id)
	if err != nil {
		g.Err = "error"
	} else {
		g.Path = p.String()
	}
	g.BBox[0], g.BBox[1], g.BBox[2], g.BBox[3] = f.GlyphBounds(id)
	g.Adv = f.GlyphAdvance(id)
	g.LSB = f.Hmtx.LeftSideBearing(id)
	return g
}

// ttSource is a font to take subsets of with everything known about it.
type ttSource struct {
	desc string
	f    *font.SFNT
	api  []sut.Glyph
	rg   []*ref.RGlyph // nil for undecodable glyphs
	bad  []bool        // cyclic or dangling
	deep []bool        // nested more than 6 deep
	deps []map[uint16]bool
}

func newTTSource(t *core.T, desc string, b []byte, glyphData [][]byte) *ttSource {
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("parse", "%s: %v", desc, err)
		return nil
	}
	s := &ttSource{desc: desc, f: f}
	n := len(glyphData)
	for i := 0; i < n; i++ {
		s.api = append(s.api, ttGlyph(f, uint16(i)))
		g, err := ref.ReadGlyph(glyphData[i])
		if err != nil {
			g = nil
		}
		s.rg = append(s.rg, g)
	}
	s.bad, s.deep, s.deps = make([]bool, n), make([]bool, n), make([]map[uint16]bool, n)
	for i := range s.rg {
		s.deps[i] = map[uint16]bool{}
		var walk func(g int, depth int)
		walk = func(g, depth int) {
			if depth > 40 || g >= n || s.rg[g] == nil {
				s.bad[i] = true
				return
			}
			if depth > 6 {
				s.deep[i] = true
			}
			for _, c := range s.rg[g].Comps {
				s.deps[i][c.GID] = true
				if !s.bad[i] {
					walk(int(c.GID), depth+1)
				}
			}
		}
		walk(i, 0)
	}
	return s
}

// check takes the subset of the source and compares.
func (s *ttSource) check(t *core.T, list []uint16, tables []string, deep bool) {
	t.Trans(1)
	desc := fmt.Sprintf("%s: subset %v %v", s.desc, shortIDs(list), tables)
	bad, tooDeep := false, false
	need := map[uint16]bool{}
	in := map[uint16]bool{}
	for _, g := range list {
		if int(g) >= len(s.rg) {
			bad = true
			continue
		}
		in[g] = true
	}
	for _, g := range list {
		if g == 0 || int(g) >= len(s.rg) {
			continue
		}
		bad = bad || s.bad[g]
		tooDeep = tooDeep || s.deep[g]
		for d := range s.deps[g] {
			need[d] = true
		}
	}
	extra := 0
	for d := range need {
		if !in[d] {
			extra++
		}
	}
	sub, err := s.f.Subset(append([]uint16{}, list...), font.SubsetOptions{Tables: tables})
	if bad {
		if err == nil {
			t.Fail("no error for an unresolvable glyph", "%s", desc)
		}
		return
	} else if err != nil {
		if !tooDeep {
			t.Fail("subset fails", "%s: %v", desc, err)
		}
		return
	}
	pdf := len(tables) > 1 || tables[0] == "pdf"
	if int(sub.NumGlyphs()) != len(list)+extra {
		t.Fail("glyph count", "%s: %d glyphs, expected %d requested and %d components", desc, sub.NumGlyphs(), len(list), extra)
		return
	}
	b := sub.Write()
	var re *font.SFNT
	if pdf {
		re, err = font.ParseEmbeddedSFNT(b, 0)
	} else {
		re, err = font.ParseSFNT(b, 0)
	}
	if err != nil {
		t.Fail("written subset does not parse", "%s: %v", desc, err)
		return
	}
	_, tb, err := ref.ReadDir(b)
	var rf *ref.RFont
	if err == nil {
		tg := map[string][]byte{}
		for _, k := range []string{"head", "maxp", "hhea", "hmtx", "loca", "glyf"} {
			tg[k] = tb[k]
		}
		rf, err = ref.ReadTables("\x00\x01\x00\x00", tg)
	}
	if err != nil {
		t.Fail("written subset is malformed", "%s: %v", desc, err)
		return
	}
	for which, f := range []*font.SFNT{sub, re} {
		w := []string{"memory", "re-parsed"}[which]
		for i, g := range list {
			t.Trans(1)
			got, want := ttGlyph(f, uint16(i)), s.api[g]
			if g == 0 && !need[0] && got.Path == "" && got.Err == "" {
				got.Path, got.BBox, got.Err = want.Path, want.BBox, want.Err
			}
			if c, d := sut.DiffGlyph(&want, &got); c != "" {
				t.Fail(c, "%s (%s): position %d, glyph %d: %s", desc, w, i, g, d)
				return
			}
		}
	}
	// structure, by the reference reader: instructions, components, points
	orig := make([]int, rf.N)
	used := map[int]bool{}
	for i := range orig {
		orig[i] = -1
		if i < len(list) {
			orig[i] = int(list[i])
		}
	}
	queue := make([]int, 0, rf.N)
	for i := range list {
		queue = append(queue, i)
	}
	for len(queue) > 0 {
		i := queue[0]
		queue = queue[1:]
		a, g := s.rg[orig[i]], rf.Glyphs[i]
		if orig[i] == 0 && !need[0] && len(g.Data) == 0 {
			continue
		}
		if len(a.Comps) != len(g.Comps) {
			t.Fail("components", "%s: position %d has %d components, expected %d", desc, i, len(g.Comps), len(a.Comps))
			return
		}
		for k := range a.Comps {
			x, y := a.Comps[k], g.Comps[k]
			if orig[y.GID] < 0 {
				if used[int(x.GID)] || in[x.GID] {
					t.Fail("component twice", "%s: glyph %d is appended more than once", desc, x.GID)
					return
				}
				used[int(x.GID)] = true
				orig[y.GID] = int(x.GID)
				queue = append(queue, int(y.GID))
			}
			if orig[y.GID] != int(x.GID) {
				t.Fail("component reference", "%s: component %d of position %d refers to glyph %d of the original, expected %d", desc, k, i, orig[y.GID], x.GID)
				return
			}
			x.GID, y.GID = 0, 0
			if x != y {
				t.Fail("component", "%s: component %d of position %d is %+v, expected %+v", desc, k, i, y, x)
				return
			}
		}
		if string(a.Instr) != string(g.Instr) {
			t.Fail("instructions", "%s: position %d: %d bytes %.20x, expected %d bytes %.20x", desc, i, len(g.Instr), g.Instr, len(a.Instr), a.Instr)
			return
		}
		if a.Overlap != g.Overlap || len(a.Contours)+len(g.Contours) > 0 && !reflect.DeepEqual(a.Contours, g.Contours) {
			t.Fail("points", "%s: position %d: points or flags differ from those of glyph %d", desc, i, orig[i])
			return
		}
		if a.BBox != g.BBox && len(a.Data) > 0 && (len(a.Comps) > 0 || len(a.Contours) > 0) {
			t.Fail("stored bounds", "%s: position %d: %v, expected %v", desc, i, g.BBox, a.BBox)
			return
		}
	}
	for i, o := range orig {
		if o < 0 {
			t.Fail("unreferenced glyph", "%s: position %d is not referenced", desc, i)
			return
		}
	}
	t.Trace()
	if deep {
		t.StateB(b)
	}
}

func shortIDs(v []uint16) string {
	if len(v) > 12 {
		return fmt.Sprintf("%v... (%d)", v[:12], len(v))
	}
	return fmt.Sprint(v)
}

// listsOf calls fn with every ordered list of distinct glyphs from 0..n-1 of length 1..k.
func listsOf(n, k int, fn func(list []uint16)) {
	var rec func(l []uint16)
	rec = func(l []uint16) {
		if len(l) > 0 {
			fn(l)
		}
		if len(l) == k {
			return
		}
	next:
		for g := 0; g < n; g++ {
			for _, x := range l {
				if int(x) == g {
					continue next
				}
			}
			rec(append(l, uint16(g)))
		}
	}
	rec(make([]uint16, 0, k))
}

func glyphDatas(f *ref.Font) [][]byte {
	out := make([][]byte, len(f.Glyphs))
	for i := range f.Glyphs {
		out[i] = f.GlyphData(i)
	}
	return out
}

func ttFont(gs []ref.Glyph) *ref.Font {
	n := len(gs)
	f := &ref.Font{UPM: 1000, Glyphs: gs, PostVer: 3, Adv: make([]uint16, n), LSB: make([]int16, n)}
	for i := range f.Adv {
		f.Adv[i] = uint16(500 + 10*i)
		f.LSB[i] = int16(3*i - 5)
	}
	m := map[rune]uint16{}
	for i := 1; i < n && i < 200; i++ {
		m[rune('@'+i)] = uint16(i)
	}
	if len(m) == 0 {
		m['A'] = 0
	}
	f.Subs, f.Recs = cmap4(m)
	return f
}

func c04(e *core.Env) {
	tableSets := [][]string{font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables}
	// A: all component graphs on few glyphs, all ordered glyph lists
	c04graphs(e, 4, true, tableSets)
	c04graphs(e, 5, e.Thorough, tableSets)

	// B: chains of composites up to the nesting limit and beyond
	e.Case("chains", func(t *core.T) {
		for d := 1; d <= 12; d++ {
			gs := []ref.Glyph{c04glyph(0, nil), c04glyph(1, nil)}
			for i := 2; i < d+2; i++ {
				gs = append(gs, c04glyph(i, []uint16{uint16(i - 1)}))
			}
			f := ttFont(gs)
			src := newTTSource(t, fmt.Sprintf("chain %d", d), f.SFNT(), glyphDatas(f))
			if src == nil {
				continue
			}
			for k := range tableSets {
				for g := 1; g < d+2; g++ {
					src.check(t, []uint16{0, uint16(g)}, tableSets[k], true)
					src.check(t, []uint16{uint16(g), 1}, tableSets[k], true)
				}
			}
		}
	})

	// C: point shapes: deltas at the limits of the short form and all repeat counts around the limits
	ds := []int{0, 1, -1, 2, 255, 256, 257, -255, -256, -257, 32767, -32768}
	if e.Thorough {
		ds = append(ds, 127, 128, 129, -127, -128, -129, 254, -254, 16384, -16384)
	}
	for a, d0 := range ds {
		e.Case(fmt.Sprintf("deltas/%d", d0), func(t *core.T) {
			var gs []ref.Glyph
			gs = append(gs, ref.Glyph{})
			for b, d1 := range ds {
				for c, d2 := range ds {
					for on := 0; on < 4; on++ {
						x, y := 0, 0
						var ct []ref.Point
						for k, d := range []int{d0, d1, d2, d0} {
							x, y = x+d, y+[]int{d1, d2, d0, d1}[k]
							ct = append(ct, ref.Point{X: int16(x), Y: int16(y), On: k == 0 || on>>(k&1)&1 == 1})
						}
						g := ref.Glyph{Contours: [][]ref.Point{ct}, Overlap: (a+b+c)%3 == 0, NoCompress: (b+c)%2 == 1}
						if on == 3 {
							g.Instr = make([]byte, (b*len(ds)+c)%5)
						}
						gs = append(gs, g)
					}
				}
			}
			f := ttFont(gs)
			src := newTTSource(t, fmt.Sprintf("deltas %d", d0), f.SFNT(), glyphDatas(f))
			if src == nil {
				return
			}
			var rev []uint16
			for i := len(gs) - 1; i >= 0; i-- {
				rev = append(rev, uint16(i))
			}
			src.check(t, rev, font.KeepAllTables, true)
			for lo := 0; lo+7 < len(gs); lo += 7 {
				src.check(t, rev[lo:lo+7], font.KeepMinTables, true)
			}
		})
	}
	reps := []int{1, 2, 3, 4, 5, 254, 255, 256, 257, 258, 259, 260, 509, 510, 511, 512, 513, 514, 515, 767, 768, 769, 770, 1025}
	e.Case("repeats", func(t *core.T) {
		gs := []ref.Glyph{{}}
		for _, r := range reps {
			for shape := 0; shape < 6; shape++ {
				g := ref.Glyph{NoCompress: shape == 5}
				var ct []ref.Point
				ct = append(ct, ref.Point{On: true})
				for k := 0; k < r; k++ {
					ct = append(ct, ref.Point{X: int16(k % 3 * [6]int{0, 300, 0, 5, 300, 5}[shape]), Y: int16(k * [6]int{0, 0, 1, 7, 20, 1}[shape]), On: shape != 3})
				}
				for k := 0; k < shape; k++ {
					ct = append(ct, ref.Point{X: 700, Y: int16(k * 17), On: k%2 == 0})
				}
				g.Contours = [][]ref.Point{ct}
				if shape == 2 {
					g.Contours = append(g.Contours, sq(1, 1, 9), ct[:min(3, len(ct))])
					g.Instr = make([]byte, r)
				}
				gs = append(gs, g)
			}
		}
		gs = append(gs, ref.Glyph{Contours: [][]ref.Point{sq(0, 0, 5)}, Instr: make([]byte, 65535)})
		f := ttFont(gs)
		src := newTTSource(t, "repeats", f.SFNT(), glyphDatas(f))
		if src == nil {
			return
		}
		var all []uint16
		for i := range gs {
			all = append(all, uint16(i))
			src.check(t, []uint16{0, uint16(i)}, font.KeepPDFTables, true)
		}
		src.check(t, all, font.KeepMinTables, true)
	})

	// D: component encodings
	e.Case("components", func(t *core.T) {
		gs := []ref.Glyph{{}, {Contours: [][]ref.Point{sq(0, 0, 64)}}, {Contours: [][]ref.Point{sq(64, 128, 64)}}}
		for kind := 0; kind < 4; kind++ {
			for words := 0; words < 2; words++ {
				for _, extra := range []uint16{0, 0x0200, 0x0400, 0x1000, 0x0004} {
					for instr := -1; instr < 3; instr++ {
						for _, dx := range []int16{0, 127, -128, 128, 5000} {
							c := ref.Component{GID: 1, Dx: dx, Dy: -dx / 2, Words: words == 1, Kind: kind, M: [4]int16{0x2000, 0, 0, 0x4000}, Extra: extra}
							if kind == 1 {
								c.M = [4]int16{0x2000}
							}
							g := ref.Glyph{Comps: []ref.Component{c, {GID: 2, Dx: 3}}, BBox: &[4]int16{1, 2, 3, 4}}
							if instr >= 0 {
								g.HasInstr = true
								g.Instr = make([]byte, instr)
							}
							gs = append(gs, g)
							c2 := c
							c2.GID = uint16(len(gs) - 1)
							if kind == 0 {
								gs = append(gs, ref.Glyph{Comps: []ref.Component{{GID: 2}, c2}, BBox: &[4]int16{9, 9, 9, 9}})
							}
						}
					}
				}
			}
		}
		f := ttFont(gs)
		src := newTTSource(t, "components", f.SFNT(), glyphDatas(f))
		if src == nil {
			return
		}
		var all []uint16
		for i := range gs {
			all = append(all, uint16(len(gs)-1-i))
			src.check(t, []uint16{uint16(i), 0}, tableSets[i%3], true)
			src.check(t, []uint16{2, uint16(i), 1}, tableSets[i%3], true)
		}
		src.check(t, all, font.KeepAllTables, true)
	})

	// E: horizontal metrics: every pattern of equal and different advances, every number of long metrics
	m := 5
	if e.Thorough {
		m = 6
	}
	e.Case("metrics", func(t *core.T) {
		for pat := 0; pat < 1<<(m-1); pat++ {
			for nhm := 1; nhm <= m; nhm++ {
				gs := plain(m)
				f := ttFont(gs)
				v := uint16(600)
				for i := range f.Adv {
					if i > 0 && pat>>(i-1)&1 == 1 {
						v = 1200 - v
					}
					f.Adv[i] = v
				}
				for i := nhm; i < m; i++ {
					f.Adv[i] = f.Adv[nhm-1]
				}
				f.NHM = nhm
				src := newTTSource(t, fmt.Sprintf("metrics %b/%d", pat, nhm), f.SFNT(), glyphDatas(f))
				if src == nil {
					continue
				}
				k := 0
				listsOf(m, 4, func(l []uint16) {
					if e.Thorough || len(l) < 4 || l[0] == 0 {
						src.check(t, l, tableSets[k%3], true)
					}
					k++
				})
			}
		}
	})

	// F: sizes of the glyph data around the limits of the short offset format
	for _, target := range []int{65532, 65534, 65536, 65538, 131066, 131068, 131070, 131072, 131074, 196608} {
		for _, tail := range []int{0, 1} {
			e.Case(fmt.Sprintf("size/%d+%d", target, tail), func(t *core.T) {
				gs := []ref.Glyph{{}}
				left := target
				for left > 0 {
					k := min(left, 20000)
					if left-k > 0 && left-k < 100 {
						k -= 100
					}
					// a square takes 10+2+2+il+flags+coordinates bytes
					g := ref.Glyph{Contours: [][]ref.Point{sq(1, 2, 50)}}
					base := len((&ref.Font{Glyphs: []ref.Glyph{g}}).GlyphData(0))
					if base%2 == 1 {
						g = ref.Glyph{Contours: [][]ref.Point{sq(1, 0, 50)}}
						base = len((&ref.Font{Glyphs: []ref.Glyph{g}}).GlyphData(0))
					}
					g.Instr = make([]byte, k-base)
					gs = append(gs, g)
					left -= k
				}
				if tail == 1 {
					gs = append(gs, ref.Glyph{})
				}
				f := ttFont(gs)
				f.LongLoca = true
				src := newTTSource(t, fmt.Sprintf("size %d", target), f.SFNT(), glyphDatas(f))
				if src == nil {
					return
				}
				var all, rev []uint16
				for i := range gs {
					all = append(all, uint16(i))
					rev = append(rev, uint16(len(gs)-1-i))
				}
				for k := range tableSets {
					src.check(t, all, tableSets[k], true)
					src.check(t, rev, tableSets[k], true)
					src.check(t, all[1:], tableSets[k], true)
				}
			})
		}
	}

	// G: glyphs that do not exist, repeated glyphs, other encodings of the same font
	e.Case("ids", func(t *core.T) {
		for _, n := range []int{1, 2, 3, 300} {
			gs := plain(n)
			if n > 2 {
				gs[n-1] = ref.Glyph{Comps: []ref.Component{{GID: 1}}, BBox: &[4]int16{0, 0, 1, 1}}
			}
			f := ttFont(gs)
			f.NHM = (n + 1) / 2
			for i := f.NHM; i < n; i++ {
				f.Adv[i] = f.Adv[f.NHM-1]
			}
			src := newTTSource(t, fmt.Sprintf("ids %d", n), f.SFNT(), glyphDatas(f))
			if src == nil {
				continue
			}
			for k := range tableSets {
				for _, id := range []int{0, n - 1, n, n + 1, 255, 256, 32767, 32768, 65534, 65535} {
					for _, pre := range [][]uint16{nil, {0}, {0, 1}, {uint16(n - 1)}} {
						for _, post := range [][]uint16{nil, {0}, {uint16(n - 1)}} {
							src.check(t, append(append(append([]uint16{}, pre...), uint16(id)), post...), tableSets[k], true)
						}
					}
				}
			}
		}
	})
	e.Case("forms", func(t *core.T) {
		gs := plain(6)
		gs[2] = ref.Glyph{}
		gs[4] = ref.Glyph{Comps: []ref.Component{{GID: 1, Dx: 300, Dy: -300}, {GID: 5}}, BBox: &[4]int16{0, -300, 500, 200}}
		gs[5] = ref.Glyph{Comps: []ref.Component{{GID: 3, Dx: 1}}, BBox: &[4]int16{0, -300, 500, 200}, HasInstr: true, Instr: []byte{1, 2, 3}}
		for long := 0; long < 2; long++ {
			for pad := 0; pad < 4; pad++ {
				for tail := 0; tail < 2; tail++ {
					f := ttFont(append([]ref.Glyph{}, gs...))
					f.LongLoca = long == 1
					for i := range f.Glyphs {
						if i != 2 {
							f.Glyphs[i].Pad = pad * (i % 2)
						}
					}
					f.GlyfTail = 4 * tail
					src := newTTSource(t, fmt.Sprintf("forms %d %d %d", long, pad, tail), f.SFNT(), glyphDatas(f))
					if src == nil {
						continue
					}
					listsOf(6, 3, func(l []uint16) { src.check(t, l, tableSets[len(l)-1], true) })
				}
			}
		}
	})

	// H: many glyphs
	for _, n := range []int{65534, 65535} {
		e.Case(fmt.Sprintf("many/%d", n), func(t *core.T) {
			gs := make([]ref.Glyph, n)
			gs[1] = ref.Glyph{Contours: [][]ref.Point{sq(0, 0, 64)}}
			gs[n-1] = ref.Glyph{Comps: []ref.Component{{GID: 1}, {GID: uint16(n - 2)}}, BBox: &[4]int16{0, 0, 64, 64}}
			gs[n-2] = ref.Glyph{Contours: [][]ref.Point{sq(0, 8, 64)}}
			f := ttFont(gs)
			for i := range f.Adv {
				f.Adv[i] = uint16(i)
				f.LSB[i] = int16(i % 100)
			}
			src := newTTSource(t, fmt.Sprintf("many %d", n), f.SFNT(), glyphDatas(f))
			if src == nil {
				return
			}
			var rev []uint16
			for i := n - 1; i >= 0; i-- {
				rev = append(rev, uint16(i))
			}
			src.check(t, rev, font.KeepMinTables, true)
			src.check(t, rev[:n-2], font.KeepPDFTables, true)
			src.check(t, []uint16{0, uint16(n - 1)}, font.KeepPDFTables, true)
		})
	}

	// I: the real fonts
	for _, name := range []string{"resources/DejaVuSerif.ttf"} {
		b := resource(name)
		rf := realFont(b)
		var data [][]byte
		for _, g := range rf.Glyphs {
			data = append(data, g.Data)
		}
		step := 97
		if e.Thorough {
			step = 13
		}
		for lo := 0; lo < 8; lo++ {
			e.Case(fmt.Sprintf("real/%s/%d", name, lo), func(t *core.T) {
				src := newTTSource(t, name, b, data)
				if src == nil {
					return
				}
				for g := lo; g < len(data); g += 8 {
					if len(rf.Glyphs[g].Comps) > 0 || g/8%(step/10) == 0 {
						src.check(t, []uint16{0, uint16(g)}, []string{"glyf", "head", "hhea", "hmtx", "loca", "maxp"}, false)
					}
				}
				var win []uint16
				for g := len(data) - 1 - lo; g >= 0; g -= step {
					win = append(win, uint16(g))
				}
				src.check(t, win, font.KeepPDFTables, true)
			})
		}
	}
	e.Wait()
}

// c04graphs explores all component graphs on n glyphs and all ordered glyph lists of up to three glyphs.
func c04graphs(e *core.Env, n int, thorough bool, tableSets [][]string) {
	var opts [][]uint16
	opts = append(opts, nil, []uint16{0xFFFF}) // simple, empty
	for a := 0; a < n; a++ {
		opts = append(opts, []uint16{uint16(a)})
	}
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			if n == 5 && (b == a || a == 0 && !thorough) {
				continue // part of the graphs on four glyphs
			}
			opts = append(opts, []uint16{uint16(a), uint16(b)})
		}
	}
	var graph func(prefix []ref.Glyph, id string)
	graph = func(prefix []ref.Glyph, id string) {
		if len(prefix) == n-2 {
			pre := append([]ref.Glyph{}, prefix...)
			e.Case(fmt.Sprintf("graph/%d/%s", n, id), func(t *core.T) {
				for a, o := range opts {
					for b, p := range opts {
						gs := append(append([]ref.Glyph{}, pre...), c04glyph(n-2, o), c04glyph(n-1, p))
						f := ttFont(gs)
						src := newTTSource(t, fmt.Sprintf("graph %s %d %d", id, a, b), f.SFNT(), glyphDatas(f))
						if src == nil {
							continue
						}
						k := 0
						listsOf(n, 3, func(l []uint16) {
							src.check(t, l, tableSets[k%3], true)
							k++
						})
					}
				}
			})
			return
		}
		for a, o := range opts {
			graph(append(prefix, c04glyph(len(prefix), o)), fmt.Sprintf("%s.%d", id, a))
		}
	}
	graph([]ref.Glyph{c04glyph(0, nil)}, "s")
	// a composite .notdef
	for a, o := range opts {
		e.Case(fmt.Sprintf("notdef/%d/%d", n, a), func(t *core.T) {
			for b, p := range opts {
				f := ttFont([]ref.Glyph{c04glyph(0, o), c04glyph(1, nil), c04glyph(2, p), c04glyph(3, nil)})
				if n > 4 {
					f = ttFont([]ref.Glyph{c04glyph(0, o), c04glyph(1, nil), c04glyph(2, p), c04glyph(3, nil), c04glyph(4, nil)})
				}
				src := newTTSource(t, fmt.Sprintf("notdef %d %d", a, b), f.SFNT(), glyphDatas(f))
				if src == nil {
					continue
				}
				k := 0
				listsOf(n, 3, func(l []uint16) {
					src.check(t, l, tableSets[k%3], true)
					k++
				})
			}
		})
	}
}

// c04glyph is glyph i with the given components.
func c04glyph(i int, o []uint16) ref.Glyph {
	if o == nil {
		return ref.Glyph{Contours: [][]ref.Point{sq(int16(4*i), int16(8*i), int16(100+4*i))}, Instr: []byte{byte(i), 2, 3}[:i%4]}
	} else if o[0] == 0xFFFF {
		return ref.Glyph{}
	}
	g := ref.Glyph{BBox: &[4]int16{int16(-i), int16(-2 * i), int16(300 + i), int16(400 + i)}}
	for k, c := range o {
		g.Comps = append(g.Comps, ref.Component{GID: c, Dx: int16(10*i + k), Dy: int16(-20 * k), Words: (i+k)%2 == 0})
	}
	if i%2 == 0 {
		g.HasInstr = true
		g.Instr = []byte{9, 8, byte(i)}
	}
	return g
}
