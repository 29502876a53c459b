package checks

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{ID: "C06", Run: c06,
		Rule: "for every explored font, glyph list and table selection: every code point of the original's character map and its neighbours looks up to the position of its glyph when that glyph is kept and to 0 otherwise, in memory, after re-parsing, and in every subtable of the written character map; " +
			"the code points reported for a position are exactly those that look up to it; every ordered pair of positions kerns as the pair of requested glyphs; the OS/2 Unicode range bits are those of the characters; exactly the selected tables are present and the stored metrics are those of the original",
		Assumptions: []string{
			"kerning with the missing-glyph may be kept or dropped",
			"a glyph that is requested twice may be reached at either position",
			"a component that is appended may or may not be mapped and kerned",
			"a character map with more than 20000 groups may be refused",
			"the kern table may be left out when no pair remains",
			"U+FFFF, surrogates and non-characters are not used"}})
}

// c06src is a font to take subsets of.
type c06src struct {
	desc   string
	f      *font.SFNT
	cm     *ref.Cmap
	inv    map[uint16][]rune
	runes  []rune // probes
	kern   []ref.RKern
	paths  map[uint16]string
	tables map[string][]byte
	vadv   bool
	n      int
}

func newC06(t *core.T, desc string, b []byte) *c06src {
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("parse", "%s: %v", desc, err)
		return nil
	}
	_, tb, err := ref.ReadDir(b)
	if err != nil {
		panic(err)
	}
	kern := tb["kern"]
	if len(kern) > 2 && kern[1] == 1 { // Apple's version: taken from the interface
		delete(tb, "kern")
	}
	rf, err := ref.ReadTables(string(b[:4]), tb)
	if kern != nil {
		tb["kern"] = kern
	}
	if err != nil {
		panic(fmt.Sprintf("%s: %v", desc, err))
	}
	s := &c06src{desc: desc, f: f, cm: rf.Cmap, inv: rf.Cmap.Inverse(), kern: rf.Kern, tables: rf.Tables, vadv: rf.VAdv != nil, n: rf.N}
	s.runes = sut.ProbeRunes(rf.Cmap)
	s.paths = map[uint16]string{}
	return s
}

func (s *c06src) path(g uint16) string {
	p, ok := s.paths[g]
	if !ok {
		x, _ := sut.Path(s.f, g)
		p = x.String()
		s.paths[g] = p
	}
	return p
}

// c06opt says what to compare.
type c06opt struct {
	pairs   [][2]int // positions, nil for all
	noKern  bool
	maySkip bool // may be refused
	runes   []rune
}

var c06kinds = map[string][]string{
	"min": {"DSIG", "cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "glyf", "loca", "CFF "},
	"pdf": {"DSIG", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "cvt ", "fpgm", "prep", "CFF "},
}

func (s *c06src) check(t *core.T, list []uint16, tables []string, o c06opt) bool {
	desc := fmt.Sprintf("%s: subset %v %v", s.desc, shortIDs(list), tables)
	t.Trace()
	t.Trans(1)
	sub, err := s.f.Subset(append([]uint16{}, list...), font.SubsetOptions{Tables: append([]string{}, tables...)})
	if err != nil {
		if !o.maySkip {
			t.Fail("subset fails", "%s: %v", desc, err)
		}
		return false
	}
	// table presence
	want := map[string]bool{}
	sel := tables
	if len(tables) == 1 {
		switch tables[0] {
		case "all":
			sel = nil
			for k := range s.tables {
				sel = append(sel, k)
			}
		case "min", "pdf":
			sel = append([]string{}, c06kinds[tables[0]]...)
			if tables[0] == "pdf" && s.f.IsCFF {
				sel = []string{"DSIG", "cmap", "CFF ", "head", "hhea", "hmtx", "maxp"}
			}
		}
	}
	for _, k := range sel {
		if _, ok := s.tables[k]; ok {
			want[k] = true
		}
	}
	for k := range sub.Tables {
		if !want[k] {
			t.Fail("extra table", "%s: table %q present", desc, k)
			return false
		}
	}
	for k := range want {
		if _, ok := sub.Tables[k]; !ok && k != "kern" {
			t.Fail("missing table", "%s: table %q missing", desc, k)
			return false
		}
	}
	if len(sub.Tables) == 0 {
		return true
	}
	b := sub.Write()
	_, tb, err := ref.ReadDir(b)
	if err != nil {
		t.Fail("malformed", "%s: %v", desc, err)
		return false
	}
	t.StateB(tb["cmap"])
	full := true
	for _, k := range []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "post"} {
		full = full && want[k]
	}
	emb := want["head"] && want["maxp"] && want["hhea"] && want["hmtx"]
	if s.f.IsCFF {
		full = full && want["CFF "]
		emb = want["CFF "] && want["cmap"]
	} else {
		full = full && want["glyf"] && want["loca"]
		emb = emb && want["glyf"] && want["loca"]
	}
	if want["vmtx"] != want["vhea"] || want["hmtx"] && !want["hhea"] {
		full, emb = false, false // not a font
	}
	fonts, names := []*font.SFNT{sub}, []string{"memory"}
	if full || emb {
		var re *font.SFNT
		if full {
			re, err = font.ParseSFNT(b, 0)
		} else {
			re, err = font.ParseEmbeddedSFNT(b, 0)
		}
		if err != nil {
			t.Fail("does not parse", "%s: written subset: %v", desc, err)
			return false
		}
		fonts, names = append(fonts, re), append(names, "re-parsed")
	}
	if full {
		if _, err := ref.ReadTables(sub.Version, tb); err != nil {
			t.Fail("malformed", "%s: %v", desc, err)
			return false
		}
	}
	pos := map[uint16][]int{}
	for i, g := range list {
		pos[g] = append(pos[g], i)
	}
	n := len(list)
	if sub.Maxp != nil {
		n = int(sub.NumGlyphs())
	}
	// characters
	var must, may [4]uint32
	if want["cmap"] {
		cm, err := ref.ReadCmap(tb["cmap"])
		if err != nil {
			t.Fail("malformed cmap", "%s: %v", desc, err)
			return false
		}
		for fi, f := range fonts {
			var ps []rune
			for _, r := range s.runes {
				ps = append(ps, r)
			}
			ps = append(ps, o.runes...)
			got := map[uint16][]rune{}
			for _, r := range ps {
				t.Trans(1)
				og, g := s.cm.Get(r), f.GlyphIndex(r)
				if g != 0 {
					got[g] = append(got[g], r)
				}
				ok := g == 0
				if og == 0 {
				} else if p := pos[og]; p != nil {
					ok = false
					for _, x := range p {
						ok = ok || int(g) == x
					}
				} else if g != 0 {
					ok = int(g) >= len(list) && int(g) < n && (!want["glyf"] || !want["loca"] || s.path(og) == c06path(f, g))
				}
				if !ok {
					t.Fail("character", "%s (%s): U+%04X looks up to position %d; the original has glyph %d", desc, names[fi], r, g, og)
					return false
				}
				if fi == 0 {
					bits := ref.UnicodeRange(r)
					for k := range bits {
						if g != 0 {
							must[k] |= bits[k]
						}
						if g != 0 || og != 0 && pos[og] != nil {
							may[k] |= bits[k]
						}
					}
					for k := range cm.Subs {
						if x, _ := cm.Subs[k].Get(r); x != g {
							t.Fail("subtable", "%s: U+%04X looks up to %d in subtable %d and to %d by the interface", desc, r, x, k, g)
							return false
						}
					}
				}
			}
			for i := 1; i < n; i++ {
				u := append([]rune{}, f.GlyphToUnicode(uint16(i))...)
				sort.Slice(u, func(a, b int) bool { return u[a] < u[b] })
				if !sut.RunesEq(u, got[uint16(i)]) {
					t.Fail("characters of glyph", "%s (%s): position %d has %x, looked up from %x", desc, names[fi], i, u, got[uint16(i)])
					return false
				}
			}
		}
	}
	if want["OS/2"] {
		raw := tb["OS/2"]
		for fi, f := range fonts {
			if f.OS2 == nil {
				if fi == 0 || full {
					t.Fail("OS/2", "%s (%s): not parsed", desc, names[fi])
					return false
				}
				continue
			}
			v := [4]uint32{f.OS2.UlUnicodeRange1, f.OS2.UlUnicodeRange2, f.OS2.UlUnicodeRange3, f.OS2.UlUnicodeRange4}
			for k := range v {
				if want["cmap"] && (v[k]&must[k] != must[k] || v[k]&^may[k] != 0) {
					t.Fail("unicode ranges", "%s (%s): ulUnicodeRange%d is %08x, at least %08x and at most %08x expected", desc, names[fi], k+1, v[k], must[k], may[k])
					return false
				}
				if w := binary.BigEndian.Uint32(raw[42+4*k:]); w != v[k] {
					t.Fail("unicode ranges", "%s (%s): ulUnicodeRange%d is %08x, written %08x", desc, names[fi], k+1, v[k], w)
					return false
				}
			}
			a, c := *s.f.OS2, *f.OS2
			for _, x := range []*[4]*uint32{{&a.UlUnicodeRange1, &a.UlUnicodeRange2, &a.UlUnicodeRange3, &a.UlUnicodeRange4}, {&c.UlUnicodeRange1, &c.UlUnicodeRange2, &c.UlUnicodeRange3, &c.UlUnicodeRange4}} {
				for _, p := range x {
					*p = 0
				}
			}
			if a.Version <= 1 { // estimated from the glyphs
				a.SxHeight, a.SCapHeight, c.SxHeight, c.SCapHeight = 0, 0, 0, 0
			}
			if a != c {
				t.Fail("OS/2 values", "%s (%s): %+v, expected %+v", desc, names[fi], c, a)
				return false
			}
		}
		if x, y := s.tables["OS/2"], raw; len(x) != len(y) || string(x[:42]) != string(y[:42]) || string(x[58:]) != string(y[58:]) {
			t.Fail("OS/2 bytes", "%s: OS/2 table changed outside the Unicode ranges", desc)
			return false
		}
	}
	for fi, f := range fonts {
		if want["head"] && (fi == 0 || f.Head != nil) {
			if f.UnitsPerEm() != s.f.UnitsPerEm() {
				t.Fail("units per em", "%s (%s): %d", desc, names[fi], f.UnitsPerEm())
				return false
			}
			a, c := *s.f.Head, *f.Head
			a.Modified, a.IndexToLocFormat = c.Modified, c.IndexToLocFormat
			if a != c {
				t.Fail("head", "%s (%s): %+v, expected %+v", desc, names[fi], c, a)
				return false
			}
		}
		if want["hhea"] && (fi == 0 || f.Hhea != nil) {
			a, c := *s.f.Hhea, *f.Hhea
			a.NumberOfHMetrics = c.NumberOfHMetrics
			if a != c {
				t.Fail("hhea", "%s (%s): %+v, expected %+v", desc, names[fi], c, a)
				return false
			}
			if want["OS/2"] == (s.f.OS2 != nil) && (fi == 0 || full) {
				a0, a1, a2 := s.f.VerticalMetrics()
				b0, b1, b2 := f.VerticalMetrics()
				if a0 != b0 || a1 != b1 || a2 != b2 {
					t.Fail("line metrics", "%s (%s): %d %d %d, expected %d %d %d", desc, names[fi], b0, b1, b2, a0, a1, a2)
					return false
				}
			}
		}
		if want["post"] && (fi == 0 || full) {
			p, q := s.f.Post, f.Post
			a := fmt.Sprint(p.ItalicAngle, p.UnderlinePosition, p.UnderlineThickness, p.IsFixedPitch, p.MinMemType42, p.MaxMemType42, p.MinMemType1, p.MaxMemType1)
			c := fmt.Sprint(q.ItalicAngle, q.UnderlinePosition, q.UnderlineThickness, q.IsFixedPitch, q.MinMemType42, q.MaxMemType42, q.MinMemType1, q.MaxMemType1)
			if a != c {
				t.Fail("post", "%s (%s): %s, expected %s", desc, names[fi], c, a)
				return false
			}
		}
		if want["head"] && (s.f.Vmtx == nil || want["vhea"] && want["vmtx"]) && (fi == 0 || f.Head != nil) {
			for i, g := range list {
				if x, y := f.GlyphVerticalAdvance(uint16(i)), s.f.GlyphVerticalAdvance(g); x != y {
					t.Fail("vertical advance", "%s (%s): position %d has %d, expected %d", desc, names[fi], i, x, y)
					return false
				}
			}
			if s.f.Vhea != nil {
				if f.Vhea == nil {
					t.Fail("vhea", "%s (%s): not parsed", desc, names[fi])
					return false
				}
				a, c := *s.f.Vhea, *f.Vhea
				a.NumberOfVMetrics = c.NumberOfVMetrics
				if a != c {
					t.Fail("vhea", "%s (%s): %+v, expected %+v", desc, names[fi], c, a)
					return false
				}
			}
		}
	}
	// verbatim tables
	for k := range want {
		switch k {
		case "cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "glyf", "loca", "CFF ", "kern", "vhea", "vmtx", "GSUB", "GPOS", "GDEF", "hdmx", "LTSH", "VORG", "DSIG":
		default:
			if !reflect.DeepEqual(tb[k], s.tables[k]) {
				t.Fail("table changed", "%s: table %q changed", desc, k)
				return false
			}
		}
	}
	// kerning
	if want["kern"] && !o.noKern {
		var rk []ref.RKern
		if b, ok := tb["kern"]; ok {
			if rk, err = ref.ReadKern(b); err != nil {
				t.Fail("malformed kern", "%s: %v", desc, err)
				return false
			}
		}
		cmp := func(i, j int) bool {
			l, r := list[i], list[j]
			w := s.f.Kerning(l, r)
			if s.kern != nil {
				w = ref.KernValue(s.kern, l, r)
			}
			got := []int16{ref.KernValue(rk, uint16(i), uint16(j))}
			for _, f := range fonts {
				if f != sub && !full && f.IsCFF {
					continue // embedded CFF fonts do not read the table
				}
				got = append(got, f.Kerning(uint16(i), uint16(j)))
			}
			for k, g := range got {
				t.Trans(1)
				if g != w && !((l == 0 || r == 0) && g == 0) {
					t.Fail("kerning", "%s (%s): positions %d and %d kern %d, glyphs %d and %d kern %d", desc, []string{"written", "memory", "re-parsed"}[k], i, j, g, l, r, w)
					return false
				}
			}
			return true
		}
		if o.pairs != nil {
			for _, p := range o.pairs {
				if !cmp(p[0], p[1]) {
					return false
				}
			}
		} else {
			for i := range list {
				for j := range list {
					if !cmp(i, j) {
						return false
					}
				}
			}
		}
	}
	return true
}

func c06path(f *font.SFNT, g uint16) string {
	p, _ := sut.Path(f, g)
	return p.String()
}

// c06run is a run of consecutive code points.
type c06run struct {
	gap, kind, n int
}

// c06runs makes the subset list that gives the runs: glyph of code point base+k is 1+k.
func c06runs(runs []c06run) []uint16 {
	var groups [][]uint16
	g := uint16(1)
	for _, r := range runs {
		g += uint16(r.gap)
		var l []uint16
		for i := 0; i < r.n; i++ {
			switch r.kind {
			case 0: // contiguous
				l = append(l, g+uint16(i))
			case 1: // decreasing
				l = append(l, g+uint16(r.n-1-i))
			default: // swapped neighbours
				l = append(l, g+uint16(min(i^1, r.n-1)))
				if i^1 >= r.n {
					l[i] = g + uint16(i)
				}
			}
		}
		g += uint16(r.n)
		groups = append(groups, l)
	}
	list := []uint16{0}
	for i := len(groups) - 1; i >= 0; i-- {
		list = append(list, groups[i]...)
	}
	return list
}

// c06font has n glyphs with code points base.. mapped to glyph 1...
func c06font(n int, m map[rune]uint16, format int) *ref.Font {
	f := &ref.Font{Glyphs: make([]ref.Glyph, n), OS2: &ref.OS2{Version: 4, Range: [4]uint32{0xFFFFFFFF, 1, 2, 3}, TypoAsc: 700, TypoDesc: -200, WinAsc: 800, WinDesc: 300}}
	if format == 12 {
		f.Subs, f.Recs = cmap12(m)
	} else {
		f.Subs, f.Recs = cmap4(m)
	}
	return f
}

func c06(e *core.Env) {
	c06cmap(e)
	c06kern(e)
	c06ranges(e)
	c06tables(e)
	c06real(e)
	e.Wait()
}

func c06cmap(e *core.Env) {
	// runs of code points
	kinds, gaps := []int{0, 1, 2}, []int{0, 1}
	lens := []int{1, 2, 7, 8, 9, 10}
	var all []c06run
	for _, k := range kinds {
		for _, g := range gaps {
			for _, n := range lens {
				if n == 1 && k > 0 {
					continue
				}
				all = append(all, c06run{g, k, n})
			}
		}
	}
	var few []c06run
	for _, r := range all {
		if r.n != 7 && r.n != 10 && r.kind < 2 && (r.n != 1 || r.gap == 0) {
			few = append(few, r)
		}
	}
	bases := []rune{0x100, 0xFFE0, 0x10000 - 9}
	for bi, base := range bases {
		for i, r0 := range all {
			if bi == 2 && r0.n != 9 {
				continue
			}
			e.Case(fmt.Sprintf("cmap/runs/%x/%d-%d-%d", base, r0.gap, r0.kind, r0.n), func(t *core.T) {
				m := map[rune]uint16{}
				for k := rune(0); k < 48; k++ {
					if base+k != 0xFFFF {
						m[base+k] = uint16(1 + k)
					}
				}
				fm := c06font(49, m, 12)
				s := newC06(t, fmt.Sprintf("48 characters from U+%04X", base), fm.SFNT())
				if s == nil {
					return
				}
				try := func(runs ...c06run) {
					t.State(fmt.Sprint(runs))
					s.check(t, c06runs(runs), []string{"min"}, c06opt{noKern: true})
				}
				try(r0)
				for _, r1 := range all {
					try(r0, r1)
				}
				if e.Thorough {
					for _, r1 := range all {
						for _, r2 := range all {
							try(r0, r1, r2)
						}
					}
					return
				}
				in := false
				for _, r := range few {
					in = in || r == all[i]
				}
				if in && bi == 0 {
					for _, r1 := range few {
						for _, r2 := range few {
							try(r0, r1, r2)
						}
					}
				}
			})
		}
	}
	if e.Thorough {
		for _, r0 := range few {
			e.Case(fmt.Sprintf("cmap/runs4/%d-%d-%d", r0.gap, r0.kind, r0.n), func(t *core.T) {
				m := map[rune]uint16{}
				for k := rune(0); k < 60; k++ {
					m[0x100+k] = uint16(1 + k)
				}
				s := newC06(t, "60 characters", c06font(61, m, 4).SFNT())
				for _, r1 := range few {
					for _, r2 := range few {
						for _, r3 := range few {
							s.check(t, c06runs([]c06run{r0, r1, r2, r3}), []string{"min"}, c06opt{noKern: true})
						}
					}
				}
			})
		}
	}
	// every permutation of a few glyphs
	e.Case("cmap/permutations", func(t *core.T) {
		n := 6
		if e.Thorough {
			n = 8
		}
		m := map[rune]uint16{}
		for k := 0; k < n; k++ {
			m['A'+rune(k)] = uint16(1 + k)
		}
		s := newC06(t, "permutations", c06font(n+1, m, 4).SFNT())
		for _, p := range perms(n) {
			l := []uint16{0}
			for _, x := range p {
				l = append(l, uint16(1+x))
			}
			s.check(t, l, []string{"min"}, c06opt{noKern: true})
		}
	})
	// every assignment of few characters to few glyphs and every list
	for fm := range 3 {
		e.Case(fmt.Sprintf("cmap/assignments/%d", fm), func(t *core.T) {
			cs := [][]rune{{'A', 'B', 'D', 0xFFFE}, {0, 1, 2, 0x10000}, {0x10FFFF, 0xFFFD, 0x10000, 0x10001}}[fm]
			for c := 0; c < 256; c++ {
				m := map[rune]uint16{}
				for k, r := range cs {
					if g := uint16(c >> (2 * k) & 3); g != 0 {
						m[r] = g
					}
				}
				x := c06font(4, m, 12)
				x.Glyphs = plain(4)
				s := newC06(t, fmt.Sprintf("characters %x", m), x.SFNT())
				listsOf(4, 4, func(l []uint16) {
					s.check(t, l, []string{"min"}, c06opt{})
				})
			}
		})
	}
	// duplicates in the list
	e.Case("cmap/duplicates", func(t *core.T) {
		m := map[rune]uint16{'A': 1, 'B': 2, 'C': 2, 'D': 3}
		x := c06font(4, m, 4)
		x.Glyphs = plain(4)
		s := newC06(t, "duplicates", x.SFNT())
		for a := range 64 {
			s.check(t, []uint16{0, uint16(a & 3), uint16(a >> 2 & 3), uint16(a >> 4)}, []string{"min"}, c06opt{})
		}
	})
	// glyph numbers that equal or surround the code points
	for _, base := range []int{1, 0x41, 0x100, 0x8000, 0xFF00} {
		e.Case(fmt.Sprintf("cmap/delta/%x", base), func(t *core.T) {
			n := base + 64
			m := map[rune]uint16{}
			for k := range 40 {
				if base+k < 0xFFFF {
					m[rune(base+k)] = uint16(1 + k)
				}
			}
			s := newC06(t, fmt.Sprintf("code points from %x", base), c06font(48, m, 4).SFNT())
			// fill with the missing-glyph so that positions pass the code points
			for _, ln := range []int{1, 2, 9, 10, 20} {
				for _, off := range []int{-2, -1, 0, 1, 2} {
					if base+off < 1 {
						continue
					}
					l := make([]uint16, min(base+off, n))
					if len(l)+ln > 65535 {
						continue
					}
					for k := range ln {
						l = append(l, uint16(1+k))
					}
					s.check(t, l, []string{"min"}, c06opt{noKern: true})
				}
			}
		})
	}
	for _, r := range []rune{0, 1, 0x20, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFF0} {
		e.Case(fmt.Sprintf("cmap/wrap/%x", r), func(t *core.T) {
			m := map[rune]uint16{}
			for k := rune(0); k < 12; k++ {
				m[r+k] = uint16(1 + k)
			}
			s := newC06(t, fmt.Sprintf("12 characters from U+%04X", r), c06font(13, m, 4).SFNT())
			for _, at := range []int{1, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFF0, 65535 - 12} {
				for _, ln := range []int{1, 9, 12} {
					l := make([]uint16, at)
					for k := range ln {
						l = append(l, uint16(1+k))
					}
					s.check(t, l, []string{"min"}, c06opt{noKern: true})
				}
			}
		})
	}
	// many segments
	segs := []int{8186, 8187, 8188, 8189, 8190, 8191, 8192, 10000}
	if e.Thorough {
		segs = append(segs, 4095, 4096, 16383, 16384, 19999, 20000, 20001, 21000, 21845)
	} else {
		segs = append(segs, 19998, 21000)
	}
	for _, n := range segs {
		for kind := range 3 {
			e.Case(fmt.Sprintf("cmap/segments/%d/%d", n, kind), func(t *core.T) {
				m := map[rune]uint16{}
				step := rune(65530 / n)
				if kind < 2 && step < 2 {
					return
				}
				for k := 0; k < n; k++ {
					switch kind {
					case 0: // isolated characters
						m[rune(k)*step] = uint16(1 + k)
					case 1: // pairs
						if k%2 == 1 {
							m[rune(k-1)*step+1] = uint16(1 + k)
						} else {
							m[rune(k)*step] = uint16(1 + k)
						}
					default: // scattered without gaps
						m[rune(k)] = uint16(1 + (k^1)%n)
					}
				}
				f := c06font(n+1, m, 6)
				// read through several subtables: the library refuses large ones
				f.Subs, f.Recs = nil, nil
				rs := make([]rune, 0, n)
				for r := range m {
					rs = append(rs, r)
				}
				sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
				chunk(len(rs), 7000, func(lo, hi int) {
					x := map[rune]uint16{}
					for _, r := range rs[lo:hi] {
						x[r] = m[r]
					}
					f.Recs = append(f.Recs, ref.CmapRec{Platform: 3, Encoding: 10 + len(f.Subs), Sub: len(f.Subs)})
					f.Subs = append(f.Subs, ref.CmapSub{Format: 12, Map: x})
				})
				s := newC06(t, fmt.Sprintf("%d segments, kind %d", n, kind), f.SFNT())
				if s == nil {
					return
				}
				l := make([]uint16, n+1)
				for i := range l {
					l[i] = uint16(i)
				}
				s.check(t, l, []string{"min"}, c06opt{noKern: true, maySkip: n > 19998})
				for i := 1; i < len(l)-i; i++ {
					l[i], l[len(l)-i] = l[len(l)-i], l[i]
				}
				s.check(t, l, []string{"min"}, c06opt{noKern: true, maySkip: n > 19998})
			})
		}
	}
	// many scattered characters in one segment: the glyph array grows large
	arr := []int{32700, 32750, 32751, 32752, 32753, 32760, 32767, 32768, 32769}
	if e.Thorough {
		arr = append(arr, 40000, 60000, 65000)
	}
	for _, n := range arr {
		for split := range 2 {
			e.Case(fmt.Sprintf("cmap/array/%d/%d", n, split), func(t *core.T) {
				m := map[rune]uint16{}
				for k := 0; k < n; k++ {
					r := rune(k)
					if split == 1 && k >= n/2 {
						r++
					}
					m[r] = uint16(1 + k)
				}
				s := newC06(t, fmt.Sprintf("%d characters", n), c06font(n+1, m, 12).SFNT())
				l := []uint16{0}
				for i := 0; i < n; i++ {
					l = append(l, uint16(1+min(i^2, n-1)))
					if i^2 >= n {
						l[len(l)-1] = uint16(1 + i)
					}
				}
				s.check(t, l, []string{"min"}, c06opt{noKern: true, maySkip: n/2 > 19990})
			})
		}
	}
	// several subtables in the original
	maps := []map[rune]uint16{{'A': 1, 'B': 2}, {'A': 2, 'C': 3}, {'B': 0, 'C': 1, 'D': 3}, {'A': 3}}
	fms := []int{0, 4, 6, 12}
	for c := 0; c < 256; c++ {
		if c%16 != 0 {
			continue
		}
		e.Case(fmt.Sprintf("cmap/subtables/%02x", c), func(t *core.T) {
			for d := c; d < c+16; d++ {
				f := c06font(5, nil, 4)
				f.Glyphs = plain(5)
				f.Subs, f.Recs = nil, nil
				for k := range 2 {
					f.Subs = append(f.Subs, ref.CmapSub{Format: fms[d>>(4*k)&3], Map: maps[d>>(4*k+2)&3]})
					f.Recs = append(f.Recs, ref.CmapRec{Platform: 0, Encoding: k, Sub: k})
				}
				s := newC06(t, fmt.Sprintf("subtables %x", d), f.SFNT())
				if s == nil {
					continue
				}
				listsOf(5, 3, func(l []uint16) { s.check(t, l, []string{"min"}, c06opt{}) })
			}
		})
	}
	// composites and CFF
	for _, cff := range []bool{false, true} {
		e.Case(fmt.Sprintf("cmap/kinds/cff=%v", cff), func(t *core.T) {
			f := &ref.Font{CFF: cff, OS2: &ref.OS2{Version: 4}}
			f.Glyphs = plain(6)
			if cff {
				for i := range f.Glyphs {
					f.Glyphs[i].CS = append(ref.Num(10+i), append(ref.Num(20), 21, 139, 139+50, 5, 14)...)
				}
			} else {
				f.Glyphs[4] = ref.Glyph{Comps: []ref.Component{{GID: 2, Dx: 3}}}
				f.Glyphs[5] = ref.Glyph{Comps: []ref.Component{{GID: 4, Dx: 3}, {GID: 1, Dx: 9}}}
			}
			f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1, 'B': 2, 'C': 3, 'D': 4, 'E': 5, 'F': 2})
			f.Kern = []ref.KernSub{{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: 5}, {L: 2, R: 1, V: 6}, {L: 4, R: 5, V: -7}}}}
			s := newC06(t, fmt.Sprintf("cff=%v", cff), f.SFNT())
			if s == nil {
				return
			}
			for _, tb := range [][]string{{"all"}, {"min"}, {"pdf"}} {
				listsOf(6, 3, func(l []uint16) { s.check(t, l, tb, c06opt{}) })
			}
		})
	}
}

func c06kern(e *core.Env) {
	vals := []int16{0, 50, -30}
	ps := [][2]uint16{{1, 2}, {2, 1}, {2, 2}, {1, 3}}
	// first subtable: 4 pairs, each absent or one of three values; second: none, accumulating or minimum
	for second := range 3 {
		for v2 := range 16 {
			if second == 0 && v2 > 0 {
				continue
			}
			e.Case(fmt.Sprintf("kern/small/%d/%d", second, v2), func(t *core.T) {
				for c := range 256 {
					f := c06font(5, map[rune]uint16{'A': 1}, 4)
					f.Glyphs = plain(5)
					sub := ref.KernSub{Coverage: 1}
					for k, p := range ps {
						if x := c >> (2 * k) & 3; x < 3 {
							sub.Pairs = append(sub.Pairs, ref.KernPair{L: p[0], R: p[1], V: vals[x]})
						}
					}
					f.Kern = []ref.KernSub{sub}
					if second > 0 {
						s2 := ref.KernSub{Coverage: 1 + 2*(second-1)}
						for k, p := range [][2]uint16{{1, 2}, {2, 1}} {
							if x := v2 >> (2 * k) & 3; x < 3 {
								s2.Pairs = append(s2.Pairs, ref.KernPair{L: p[0], R: p[1], V: []int16{0, 7, -100}[x]})
							}
						}
						f.Kern = append(f.Kern, s2)
					}
					for k := range f.Kern {
						x := f.Kern[k].Pairs
						sort.Slice(x, func(i, j int) bool { return x[i].L < x[j].L || x[i].L == x[j].L && x[i].R < x[j].R })
					}
					s := newC06(t, fmt.Sprintf("kern %v", f.Kern), f.SFNT())
					if s == nil {
						return
					}
					k := 2
					if e.Thorough {
						k = 3
					}
					for _, l := range [][]uint16{{0, 1, 2}, {0, 2, 1}, {2, 1, 0}, {0, 4, 2, 3, 1}, {0, 1, 1, 2}, {0, 3, 4}, {0, 2, 4}} {
						s.check(t, l, []string{"all"}, c06opt{})
					}
					if c%4 == 0 || e.Thorough {
						listsOf(4, k, func(l []uint16) { s.check(t, l, []string{"all"}, c06opt{}) })
					}
				}
			})
		}
	}
	// kerning with the missing-glyph and glyph numbers beyond a byte
	for _, g := range []int{0, 1, 255, 256, 257} {
		e.Case(fmt.Sprintf("kern/number/%d", g), func(t *core.T) {
			f := c06font(300, map[rune]uint16{'A': 1}, 4)
			var pairs []ref.KernPair
			for _, x := range []int{0, 1, 255, 256, 257} {
				pairs = append(pairs, ref.KernPair{L: uint16(g), R: uint16(x), V: int16(1 + g + x)})
			}
			f.Kern = []ref.KernSub{{Coverage: 1, Pairs: pairs}}
			s := newC06(t, fmt.Sprintf("kern %v", f.Kern), f.SFNT())
			ids := []uint16{0, 1, 255, 256, 257}
			listsOf(5, 5, func(l []uint16) {
				m := make([]uint16, len(l))
				for i, x := range l {
					m[i] = ids[x]
				}
				s.check(t, m, []string{"all"}, c06opt{})
			})
		})
	}
	// number of pairs
	counts := []int{1, 2, 3, 4, 7, 8, 9, 63, 64, 65, 10919, 10920, 10921, 10922, 10923}
	if e.Thorough {
		counts = append(counts, 16384, 21843, 32768, 65534, 65535)
	} else {
		counts = append(counts, 65535)
	}
	for _, n := range counts {
		for shape := range 3 {
			e.Case(fmt.Sprintf("kern/count/%d/%d", n, shape), func(t *core.T) {
				w := 1
				for w*w < n {
					w++
				}
				var pairs []ref.KernPair
				var want [][2]int
				for i := 0; i < w && len(pairs) < n; i++ {
					for j := 0; j < w && len(pairs) < n; j++ {
						pairs = append(pairs, ref.KernPair{L: uint16(1 + i), R: uint16(1 + j), V: int16(1 + (len(pairs)*7)%1000)})
						want = append(want, [2]int{1 + i, 1 + j})
					}
				}
				f := c06font(w+2, map[rune]uint16{'A': 1}, 4)
				big := ref.KernSub{Coverage: 1, Pairs: pairs}
				small := ref.KernSub{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 1, V: 3}}}
				switch shape {
				case 0:
					f.Kern = []ref.KernSub{big}
				case 1:
					f.Kern = []ref.KernSub{small, big}
				default: // the length field of the first subtable would overflow: use Apple's version
					f.Kern, f.KernVer = []ref.KernSub{{Coverage: 0, Pairs: pairs}, {Coverage: 0, Pairs: small.Pairs}}, 1
				}
				s := newC06(t, fmt.Sprintf("%d pairs, shape %d", n, shape), f.SFNT())
				if s == nil {
					return
				}
				l := make([]uint16, w+1)
				for i := range l {
					l[i] = uint16(i)
				}
				s.check(t, l, []string{"all"}, c06opt{pairs: want})
				for i := 1; i < len(l)-i; i++ {
					l[i], l[len(l)-i] = l[len(l)-i], l[i]
				}
				for k, p := range want {
					want[k] = [2]int{w + 1 - p[0], w + 1 - p[1]}
				}
				s.check(t, l, []string{"all"}, c06opt{pairs: want})
			})
		}
	}
	// duplicate glyphs multiply the pairs
	e.Case("kern/expand", func(t *core.T) {
		f := c06font(3, map[rune]uint16{'A': 1}, 4)
		f.Kern = []ref.KernSub{{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 1, V: 3}}}}
		s := newC06(t, "one pair", f.SFNT())
		for _, n := range []int{2, 104, 105, 255, 256, 257} {
			l := make([]uint16, n+1)
			for i := 1; i <= n; i++ {
				l[i] = 1
			}
			s.check(t, l, []string{"all"}, c06opt{maySkip: n > 255})
		}
	})
}

func c06ranges(e *core.Env) {
	// every code point by itself
	step := rune(2000)
	for lo := rune(0); lo < 0x110000; lo += step {
		e.Case(fmt.Sprintf("ranges/%06x", lo), func(t *core.T) {
			m := map[rune]uint16{}
			for r := lo; r < min(lo+step, 0x110000); r++ {
				if 0xD800 <= r && r < 0xE000 || r&0xFFFE == 0xFFFE || 0xFDD0 <= r && r < 0xFDF0 {
					continue
				}
				m[r] = uint16(1 + r - lo)
			}
			if len(m) == 0 {
				return
			}
			b := c06font(int(step)+1, m, 12).SFNT()
			f, err := font.ParseSFNT(b, 0)
			if err != nil {
				t.Fail("parse", "characters from U+%04X: %v", lo, err)
				return
			}
			for r := lo; r < lo+step; r++ {
				g, ok := m[r]
				if !ok {
					continue
				}
				t.Trace()
				t.Trans(1)
				sub, err := f.Subset([]uint16{0, g}, font.SubsetOptions{Tables: []string{"OS/2", "cmap", "maxp"}})
				if err != nil {
					t.Fail("subset fails", "U+%04X: %v", r, err)
					return
				}
				want := ref.UnicodeRange(r)
				t.State(fmt.Sprint(want))
				raw := sub.Tables["OS/2"]
				o := sub.OS2
				got := [4]uint32{o.UlUnicodeRange1, o.UlUnicodeRange2, o.UlUnicodeRange3, o.UlUnicodeRange4}
				for k := range want {
					if x := binary.BigEndian.Uint32(raw[42+4*k:]); got[k] != want[k] || x != want[k] {
						t.Fail("unicode ranges", "U+%04X: ulUnicodeRange%d is %08x, written %08x, expected %08x", r, k+1, got[k], x, want[k])
						return
					}
				}
				if x := sub.GlyphIndex(r); x != 1 {
					t.Fail("character", "U+%04X looks up to %d", r, x)
					return
				}
			}
		})
	}
}

// c06full is a font with every table the library knows and some it does not.
func c06full(cff bool) *ref.Font {
	f := &ref.Font{CFF: cff, OS2: &ref.OS2{Version: 4, Weight: 400, Range: [4]uint32{1, 2, 3, 4}, TypoAsc: 700, TypoDesc: -200, TypoGap: 90, WinAsc: 800, WinDesc: 300}, Asc: 750, Desc: -250, Gap: 10,
		Italic: -0x8000 * 5, UnderPos: -77, UnderThk: 55, Fixed: 1, PostVer: 2}
	f.Glyphs = plain(6)
	if cff {
		for i := range f.Glyphs {
			f.Glyphs[i].CS = append(ref.Num(10+i), append(ref.Num(20), 21, 139, 139+50, 5, 14)...)
		}
		f.PostVer = 3
	} else {
		f.Glyphs[4] = ref.Glyph{Comps: []ref.Component{{GID: 2, Dx: 3}}}
	}
	f.Names = []string{".notdef", "a", "b", "c", "d", "e"}
	f.Adv = []uint16{500, 510, 520, 530, 540, 540}
	f.VAdv, f.TSB, f.NVM = []uint16{900, 910, 920, 930, 940, 940}, []int16{1, 2, 3, 4, 5, 6}, 5
	f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1, 'B': 2, 'C': 3, 'D': 4, 0x400: 5, 'F': 2})
	f.Kern = []ref.KernSub{{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: 5}, {L: 2, R: 1, V: 6}, {L: 4, R: 5, V: -7}}}}
	f.NameRecs = []ref.NameRec{{Platform: 3, Encoding: 1, Language: 0x409, Name: 1, Value: ref.U16BE("Family")}}
	f.Extra = map[string][]byte{"cvt ": {0, 1, 0, 2}, "fpgm": {1, 2, 3}, "prep": {9}, "gasp": {0, 1, 0, 0}, "DSIG": {0, 0, 0, 1, 0, 0, 0, 0}, "ZZZZ": {7, 7}}
	return f
}

func c06tables(e *core.Env) {
	lists := [][]uint16{{0}, {0, 1}, {0, 5, 2, 1, 4}, {3}, {0, 4}, {0, 3}, {0, 1, 2, 3, 4, 5}, {}}
	for _, cff := range []bool{false, true} {
		// every subset of the tables
		groups := []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "kern", "vhea", "vmtx", "ZZZZ", "cvt "}
		if cff {
			groups = append(groups, "CFF ")
		} else {
			groups = append(groups, "glyf", "loca")
		}
		if !e.Thorough { // fewer independent tables
			groups = append(groups[:5], groups[6:]...)
		}
		blocks := 64
		for blk := range blocks {
			e.Case(fmt.Sprintf("tables/cff=%v/%02d", cff, blk), func(t *core.T) {
				s := newC06(t, fmt.Sprintf("every table, cff=%v", cff), c06full(cff).SFNT())
				if s == nil {
					return
				}
				for m := blk; m < 1<<len(groups); m += blocks {
					if m == 0 {
						continue
					}
					var tb []string
					for k, g := range groups {
						if m>>k&1 != 0 {
							tb = append(tb, g)
						}
					}
					for li, l := range lists {
						if len(l) == 0 || li > 3 && !e.Thorough {
							continue
						}
						s.check(t, l, tb, c06opt{})
					}
				}
			})
		}
		e.Case(fmt.Sprintf("tables/named/cff=%v", cff), func(t *core.T) {
			for variant := range 8 {
				f := c06full(cff)
				if variant&1 != 0 {
					f.Kern = nil
				}
				if variant&2 != 0 {
					f.OS2, f.NoOS2 = nil, true
				}
				if variant&4 != 0 {
					f.VAdv, f.TSB = nil, nil
					f.Extra = nil
				}
				s := newC06(t, fmt.Sprintf("cff=%v, variant %d", cff, variant), f.SFNT())
				if s == nil {
					return
				}
				for _, tb := range [][]string{{"all"}, {"min"}, {"pdf"}, {"cmap", "glyf"}, {"none"}, {"post", "post"}, {"all", "min"}} {
					listsOf(6, 2, func(l []uint16) { s.check(t, l, tb, c06opt{}) })
					for _, l := range lists {
						if len(l) > 2 {
							s.check(t, l, tb, c06opt{})
						}
					}
				}
			}
		})
	}
	// vertical metrics: every combination of three advances, bearings and list
	e.Case("tables/vertical", func(t *core.T) {
		for c := range 64 {
			f := &ref.Font{Glyphs: plain(3)}
			f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1})
			for k := range 3 {
				f.VAdv = append(f.VAdv, uint16(100+100*(c>>k&1)))
				f.TSB = append(f.TSB, int16(10*(c>>(3+k)&1)+k))
			}
			for nvm := 1; nvm <= 3; nvm++ {
				f.NVM = nvm
				x := *f
				x.VAdv = clone16v(f.VAdv)
				for k := nvm; k < 3; k++ {
					x.VAdv[k] = x.VAdv[nvm-1]
				}
				s := newC06(t, fmt.Sprintf("vertical advances %v, %d long", x.VAdv, nvm), x.SFNT())
				if s == nil {
					return
				}
				listsOf(3, 3, func(l []uint16) { s.check(t, l, []string{"all"}, c06opt{}) })
			}
		}
	})
	// embedded originals: fewer tables
	for _, cff := range []bool{false, true} {
		e.Case(fmt.Sprintf("tables/embedded/cff=%v", cff), func(t *core.T) {
			tb := c06full(cff).Tables()
			opt := []string{"cmap", "OS/2", "post", "name", "kern", "head", "hhea", "hmtx", "maxp"}
			for m := range 1 << len(opt) {
				x := map[string][]byte{}
				for k, v := range tb {
					x[k] = v
				}
				for k, g := range opt {
					if m>>k&1 != 0 {
						delete(x, g)
					}
				}
				if cff {
					if m&1 != 0 {
						continue
					}
				} else if m>>5 != 0 {
					continue
				}
				ver := "\x00\x01\x00\x00"
				if cff {
					ver = "OTTO"
				}
				t.Trace()
				f, err := font.ParseEmbeddedSFNT(ref.BuildSFNT(ver, x), 0)
				if err != nil {
					t.Fail("embedded rejected", "cff=%v without %s: %v", cff, names2(opt, m), err)
					return
				}
				for _, sel := range [][]string{{"all"}, {"min"}, {"pdf"}} {
					for _, l := range lists[:4] {
						t.Trans(1)
						sub, err := f.Subset(append([]uint16{}, l...), font.SubsetOptions{Tables: append([]string{}, sel...)})
						if err != nil {
							t.Fail("embedded subset fails", "cff=%v without %s: subset %v %v: %v", cff, names2(opt, m), l, sel, err)
							return
						}
						for i, g := range l {
							for _, r := range []rune{'A', 'B', 'C', 'D', 'F', 0x400} {
								if w := f.GlyphIndex(r); w == g && w != 0 && sub.Tables["cmap"] != nil && int(sub.GlyphIndex(r)) != i {
									t.Fail("embedded character", "cff=%v without %s: subset %v %v: U+%04X looks up to %d", cff, names2(opt, m), l, sel, r, sub.GlyphIndex(r))
									return
								}
							}
							if g != 0 && sut1(f, g) != sut1(sub, uint16(i)) {
								t.Fail("embedded outline", "cff=%v without %s: subset %v %v: position %d differs", cff, names2(opt, m), l, sel, i)
								return
							}
						}
						sub.Write()
					}
				}
			}
		})
	}
}

func sut1(f *font.SFNT, g uint16) string {
	p, err := sut.Path(f, g)
	if err != nil {
		return "error"
	}
	return p.String()
}

func clone16v(v []uint16) []uint16 { return append([]uint16{}, v...) }

func names2(opt []string, m int) string {
	s := ""
	for k, g := range opt {
		if m>>k&1 != 0 {
			s += " " + g
		}
	}
	if s == "" {
		return "nothing"
	}
	return s[1:]
}

func c06real(e *core.Env) {
	for _, name := range []string{"resources/DejaVuSerif.ttf", "resources/EBGaramond12-Regular.otf"} {
		for part := range 4 {
			e.Case(fmt.Sprintf("real/%s/%d", name, part), func(t *core.T) {
				b := resource(name)
				f, err := font.ParseSFNT(b, 0)
				if err != nil {
					t.Fail("parse", "%s: %v", name, err)
					return
				}
				s := &c06src{desc: name, f: f, tables: f.Tables, paths: map[uint16]string{}, n: int(f.NumGlyphs())}
				if s.cm, err = ref.ReadCmap(f.Tables["cmap"]); err != nil {
					panic(err)
				}
				s.inv = s.cm.Inverse()
				s.runes = sut.ProbeRunes(s.cm)
				n := s.n
				var l []uint16
				switch part {
				case 0: // everything
					for i := range n {
						l = append(l, uint16(i))
					}
				case 1: // every other one
					for i := 0; i < n; i += 2 {
						l = append(l, uint16(i))
					}
				case 2: // backwards
					l = append(l, 0)
					for i := n - 1; i > 0; i -= 3 {
						l = append(l, uint16(i))
					}
				default:
					for i := range 200 {
						l = append(l, uint16(i))
					}
				}
				for _, sel := range []string{"all", "min", "pdf"} {
					s.check(t, l, []string{sel}, c06opt{noKern: len(l) > 300})
				}
			})
		}
	}
}
