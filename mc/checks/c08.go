package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{ID: "C08", Run: c08, CaseLimit: 10 * time.Minute,
		Rule: "for every explored pair (and chain) of TrueType fonts, after the merge position i has the points, outline, bounds, instructions, components, advance, bearing, vertical advance and name of glyph i of the first font, or of glyph i-n+1 of the second; " +
			"every code point of either font and its neighbours looks up to the position of its glyph (or, rearranged, code point k+32 to position k) and no other does; every ordered pair kerns as in its font and pairs across fonts do not; in memory, re-parsed, and by the strict reference reader on the written bytes; " +
			"a merge that claims a character twice or makes too many glyphs is an error, and after any error the first font answers and writes as before",
		Assumptions: []string{
			"kerning between the first font's missing-glyph and others may be kept or dropped",
			"n+m-1 = 65535 glyphs may be refused",
			"a composite glyph of the second font that uses its missing-glyph may be refused",
			"vertical advances are compared when the first font has vertical metrics; a second font without them has the em size",
			"the combined hinting programs (cvt, fpgm, prep) are out of scope"}})
}

// mGlyph is everything known about a glyph.
type mGlyph struct {
	api         sut.Glyph
	rg          *ref.RGlyph
	exec, trace string
}

// mSrc is a font to merge with everything the merge must keep.
type mSrc struct {
	desc   string
	b      []byte
	g      []mGlyph
	upm    uint16
	cm     map[rune]uint16
	kern   map[[2]uint16]int16
	vmtx   bool
	cff    bool
	nd     bool // the merge may be refused
	cid    bool
	noKern bool // kerning not compared
	maxp   []byte
	ranges []byte
}

func newMSrc(t *core.T, desc string, m *ref.Font) *mSrc {
	b := m.SFNT()
	s := newMSrcBytes(t, desc, b, glyphDatas(m))
	if s == nil {
		return nil
	}
	for _, k := range m.Kern {
		for _, p := range k.Pairs {
			if int(p.L) < len(s.g) && int(p.R) < len(s.g) {
				if v := kernWant(m.Kern, p.L, p.R); v != 0 {
					s.kern[[2]uint16{p.L, p.R}] = v
				}
			}
		}
	}
	return s
}

func newMSrcBytes(t *core.T, desc string, b []byte, datas [][]byte) *mSrc {
	f, err := font.ParseSFNT(clone(b), 0)
	if err != nil {
		t.Fail("parse", "%s: %v", desc, err)
		return nil
	}
	tb := rawTables(b)
	s := &mSrc{desc: desc, b: b, upm: f.UnitsPerEm(), cm: map[rune]uint16{}, kern: map[[2]uint16]int16{}, vmtx: tb["vmtx"] != nil, cff: f.IsCFF, maxp: tb["maxp"]}
	if o := tb["OS/2"]; o != nil {
		s.ranges = o[42:58]
	}
	c, err := ref.ReadCmap(tb["cmap"])
	if err != nil {
		panic(fmt.Sprintf("%s: %v", desc, err))
	}
	for _, r := range c.Runes() {
		if g := c.Get(r); g != 0 {
			s.cm[r] = g
		}
	}
	var v *ref.CFFView
	if f.IsCFF {
		if v, err = ref.ReadCFF(tb["CFF "]); err != nil {
			panic(fmt.Sprintf("%s: %v", desc, err))
		}
	}
	for i := 0; i < int(f.NumGlyphs()); i++ {
		g := mGlyph{api: ttGlyph(f, uint16(i))}
		g.api.VAdv = f.GlyphVerticalAdvance(uint16(i))
		g.api.Name = f.GlyphName(uint16(i))
		if v != nil {
			p, tr, err := v.Exec(i)
			if err != nil {
				panic(fmt.Sprintf("%s: glyph %d: %v", desc, i, err))
			}
			g.exec, g.trace = p.String(), strings.Join(tr, " ")
			if s.cid = v.CID; s.cid {
				g.api.Name = ""
			}
		} else if g.rg, err = ref.ReadGlyph(datas[i]); err != nil {
			panic(fmt.Sprintf("%s: glyph %d: %v", desc, i, err))
		} else if i > 0 {
			for _, c := range g.rg.Comps {
				s.nd = s.nd || c.GID == 0
			}
		}
		s.g = append(s.g, g)
	}
	return s
}

func (s *mSrc) probes() []rune {
	m := map[rune]bool{0: true, 1: true, 32: true, 33: true, 34: true, 0xFFFF: true, 0x10FFFF: true}
	for r := range s.cm {
		m[r-1], m[r], m[r+1] = true, true, true
	}
	delete(m, -1)
	return sortedRunes(m)
}

func (s *mSrc) pairs() [][2]uint16 {
	var out [][2]uint16
	n := len(s.g)
	if n <= 24 {
		for l := 0; l < n; l++ {
			for r := 0; r < n; r++ {
				out = append(out, [2]uint16{uint16(l), uint16(r)})
			}
		}
		return out
	}
	m := map[[2]uint16]bool{}
	for p := range s.kern {
		for d := -1; d <= 1; d++ {
			for e := -1; e <= 1; e++ {
				m[[2]uint16{uint16(int(p[0]) + d), uint16(int(p[1]) + e)}] = true
			}
		}
	}
	for p := range m {
		if int(p[0]) < n && int(p[1]) < n {
			out = append(out, p)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i][0] < out[j][0] || out[i][0] == out[j][0] && out[i][1] < out[j][1]
	})
	return out
}

// verify compares the answers of a font with what is expected.
func (s *mSrc) verify(t *core.T, f *font.SFNT, when string) bool {
	desc := s.desc + " (" + when + ")"
	if int(f.NumGlyphs()) != len(s.g) {
		t.Fail("glyph count", "%s: %d glyphs, expected %d", desc, f.NumGlyphs(), len(s.g))
		return false
	}
	inv := map[uint16][]rune{}
	for _, r := range s.probes() {
		want := s.cm[r]
		if want != 0 {
			inv[want] = append(inv[want], r)
		}
		if got := f.GlyphIndex(r); got != want {
			t.Fail("character map", "%s: U+%04X gives glyph %d, expected %d", desc, r, got, want)
			return false
		}
	}
	for i := range s.g {
		t.Trans(1)
		got, want := ttGlyph(f, uint16(i)), s.g[i].api
		got.VAdv = f.GlyphVerticalAdvance(uint16(i))
		if !s.cid {
			got.Name = f.GlyphName(uint16(i))
		} else {
			want.Name = ""
		}
		if !s.vmtx {
			want.VAdv = s.upm
		}
		if i > 0 {
			want.Runes = inv[uint16(i)]
			got.Runes = append([]rune{}, f.GlyphToUnicode(uint16(i))...)
			sort.Slice(got.Runes, func(a, b int) bool { return got.Runes[a] < got.Runes[b] })
		}
		if c, d := sut.DiffGlyph(&want, &got); c != "" {
			t.Fail(c, "%s: glyph %d: expected and got %s", desc, i, d)
			return false
		}
	}
	if !s.noKern {
		for _, p := range s.pairs() {
			if got, want := f.Kerning(p[0], p[1]), s.kern[p]; got != want && !(got == 0 && (p[0] == 0 || p[1] == 0)) {
				t.Fail("kerning", "%s: pair %v: %d, expected %d", desc, p, got, want)
				return false
			}
		}
	}
	return true
}

func conflicts(a, b *mSrc) bool {
	for r := range b.cm {
		if a.cm[r] != 0 {
			return true
		}
	}
	return false
}

// merge merges b into a and returns what it must have become, or nil.
func (a *mSrc) merge(t *core.T, b *mSrc, rearr bool) *mSrc {
	t.Trans(1)
	desc := fmt.Sprintf("merge(%s, %s, rearrange=%v)", a.desc, b.desc, rearr)
	fa, err := font.ParseSFNT(clone(a.b), 0)
	if err != nil {
		t.Fail("parse", "%s: %v", desc, err)
		return nil
	}
	fb, err := font.ParseSFNT(clone(b.b), 0)
	if err != nil {
		t.Fail("parse", "%s: %v", desc, err)
		return nil
	}
	n, m := len(a.g), len(b.g)
	err = fa.Merge(fb, font.MergeOptions{RearrangeCmap: rearr})
	bad := ""
	switch {
	case a.cff != b.cff:
		bad = "different outline kinds"
	case n+m-1 > 65535:
		bad = "too many glyphs"
	case m > 1 && !rearr && conflicts(a, b):
		bad = "a character is claimed by two glyphs"
	}
	if err != nil {
		if bad == "" && !b.nd && !(a.cff && a.nd) && n+m <= 65535 {
			t.Fail("merge fails", "%s: %v", desc, err)
			return nil
		}
		t.Trace()
		old, _ := font.ParseSFNT(clone(a.b), 0)
		unchanged(t, desc, old, fa, a.probes(), a.pairs())
		return nil
	} else if bad != "" {
		t.Fail("no error: "+bad, "%s: %s but no error", desc, bad)
		return nil
	}
	r := &mSrc{desc: desc, upm: a.upm, vmtx: a.vmtx, cff: a.cff, cid: a.cid || b.cid, nd: a.nd || b.nd, noKern: a.noKern || b.noKern, cm: map[rune]uint16{}, kern: map[[2]uint16]int16{}, maxp: clone(a.maxp), ranges: a.ranges}
	if m < 2 {
		// nothing to add
		old, _ := font.ParseSFNT(clone(a.b), 0)
		unchanged(t, desc, old, fa, a.probes(), a.pairs())
		return nil
	}
	r.g = append([]mGlyph{}, a.g...)
	for _, g := range b.g[1:] {
		if g.rg != nil && len(g.rg.Comps) > 0 {
			rg := *g.rg
			rg.Comps = append([]ref.Component{}, rg.Comps...)
			for k := range rg.Comps {
				rg.Comps[k].GID += uint16(n - 1)
			}
			g.rg = &rg
		}
		r.g = append(r.g, g)
	}
	if rearr {
		for k := 1; k < n+m-1; k++ {
			r.cm[rune(k+32)] = uint16(k)
		}
	} else {
		for x, g := range a.cm {
			r.cm[x] = g
		}
		for x, g := range b.cm {
			r.cm[x] = g + uint16(n-1)
		}
	}
	for p, v := range a.kern {
		r.kern[p] = v
	}
	for p, v := range b.kern {
		if !r.cff && p[0] != 0 && p[1] != 0 {
			r.kern[[2]uint16{p[0] + uint16(n-1), p[1] + uint16(n-1)}] = v
		}
	}
	if a.ranges != nil && b.ranges != nil {
		r.ranges = clone(a.ranges)
		for i := range r.ranges {
			r.ranges[i] |= b.ranges[i]
		}
	}
	if !r.verify(t, fa, "memory") || !r.subsets(t, fa) {
		return nil
	}
	r.b = fa.Write()
	re, err := font.ParseSFNT(clone(r.b), 0)
	if err != nil {
		t.Fail("written font does not parse", "%s: %v", desc, err)
		return nil
	} else if !r.verify(t, re, "re-parsed") {
		return nil
	}
	_, tb, err := ref.ReadDir(r.b)
	var rf *ref.RFont
	if err == nil {
		if a.noKern {
			delete(tb, "kern")
		}
		rf, err = ref.ReadTables(string(r.b[:4]), tb)
	}
	if err != nil {
		t.Fail("written font is malformed", "%s: %v", desc, err)
		return nil
	}
	for i := range r.g {
		if r.cff {
			p, tr, err := rf.C.Exec(i)
			if err != nil {
				t.Fail("invalid charstring", "%s: glyph %d: %v", desc, i, err)
				return nil
			} else if p.String() != r.g[i].exec {
				t.Fail("outline", "%s (reference): glyph %d: %.300s, expected %.300s", desc, i, p, r.g[i].exec)
				return nil
			} else if x := strings.Join(tr, " "); x != r.g[i].trace {
				t.Fail("operators", "%s: glyph %d executes %.300s, expected %.300s", desc, i, x, r.g[i].trace)
				return nil
			} else if i > 0 && !r.cid && rf.C.Charset[i] != r.g[i].api.Name {
				t.Fail("stored name", "%s: glyph %d: %q, expected %q", desc, i, rf.C.Charset[i], r.g[i].api.Name)
				return nil
			}
			continue
		}
		x, y := r.g[i].rg, rf.Glyphs[i]
		if len(x.Comps)+len(y.Comps) > 0 && !reflect.DeepEqual(x.Comps, y.Comps) {
			t.Fail("components", "%s: glyph %d: %+v, expected %+v", desc, i, y.Comps, x.Comps)
			return nil
		} else if len(x.Contours)+len(y.Contours) > 0 && !reflect.DeepEqual(x.Contours, y.Contours) || x.Overlap != y.Overlap {
			t.Fail("points", "%s: glyph %d: points or flags differ", desc, i)
			return nil
		} else if string(x.Instr) != string(y.Instr) {
			t.Fail("instructions", "%s: glyph %d: %.40x, expected %.40x", desc, i, y.Instr, x.Instr)
			return nil
		} else if x.BBox != y.BBox {
			t.Fail("stored bounds", "%s: glyph %d: %v, expected %v", desc, i, y.BBox, x.BBox)
			return nil
		}
	}
	if !r.cff {
		for k := 6; k+1 < len(tb["maxp"]); k += 2 {
			x, y, z := binary.BigEndian.Uint16(a.maxp[k:]), binary.BigEndian.Uint16(b.maxp[k:]), binary.BigEndian.Uint16(tb["maxp"][k:])
			if z < max(x, y) {
				t.Fail("maximum profile", "%s: field at %d is %d, expected at least %d", desc, k, z, max(x, y))
				return nil
			}
		}
	}
	r.maxp = tb["maxp"]
	if r.ranges != nil && !bytes.Equal(tb["OS/2"][42:58], r.ranges) {
		t.Fail("unicode ranges", "%s: %x, expected %x", desc, tb["OS/2"][42:58], r.ranges)
		return nil
	}
	t.Trace()
	t.StateB(tb["loca"])
	t.StateB(tb["cmap"])
	t.StateB(tb["kern"])
	t.StateB(tb["CFF "])
	return r
}

// subsets takes subsets of the merged font: every glyph alone, the glyphs of each font and all in reverse order.
func (s *mSrc) subsets(t *core.T, f *font.SFNT) bool {
	n := len(s.g)
	if !s.cff && n > 30 || n > 3000 {
		return true
	}
	all := []uint16{0}
	for i := n - 1; i > 0; i-- {
		all = append(all, uint16(i))
	}
	lists := [][]uint16{all}
	if n > 2 {
		lists = append(lists, append([]uint16{0}, all[1:1+n/2]...), append([]uint16{0}, all[n/2:]...))
	}
	if n <= 12 {
		for i := 1; i < n; i++ {
			lists = append(lists, []uint16{0, uint16(i)})
		}
	}
	for _, l := range lists {
		t.Trans(1)
		sub, err := f.Subset(append([]uint16{}, l...), font.SubsetOptions{Tables: font.KeepAllTables})
		if err != nil {
			if !s.nd {
				t.Fail("subset of merged font fails", "%s: subset %v: %v", s.desc, shortIDs(l), err)
				return false
			}
			continue
		}
		var rf *ref.CFFView
		if s.cff {
			if rf, err = ref.ReadCFF(sub.Tables["CFF "]); err != nil {
				t.Fail("subset of merged font is malformed", "%s: subset %v: %v", s.desc, shortIDs(l), err)
				return false
			}
		}
		for i, g := range l {
			if g == 0 {
				continue
			}
			got, want := ttGlyph(sub, uint16(i)), s.g[g].api
			want.VAdv, want.Name = 0, ""
			if s.cff && !s.cid {
				got.Name, want.Name = sub.GlyphName(uint16(i)), s.g[g].api.Name
			}
			if c, d := sut.DiffGlyph(&want, &got); c != "" {
				t.Fail("subset of merged font: "+c, "%s: subset %v, position %d: expected and got %s", s.desc, shortIDs(l), i, d)
				return false
			}
			if rf != nil {
				if p, tr, err := rf.Exec(i); err != nil || p.String() != s.g[g].exec || strings.Join(tr, " ") != s.g[g].trace {
					t.Fail("subset of merged font: program", "%s: subset %v, position %d: error %v, executes %.300s, expected %.300s", s.desc, shortIDs(l), i, err, strings.Join(tr, " "), s.g[g].trace)
					return false
				}
			}
		}
	}
	return true
}

// unchanged tells whether two fonts answer and serialise the same.
func unchanged(t *core.T, desc string, old, f *font.SFNT, runes []rune, pairs [][2]uint16) bool {
	o := sut.Opt{Runes: runes, Pairs: pairs}
	if c, d := sut.Diff(sut.Observe(old, o), sut.Observe(f, o)); c != "" {
		t.Fail("changed: "+c, "%s: the font changed: %s", desc, d)
		return false
	}
	if old.Length != f.Length || old.Version != f.Version || len(old.Tables) != len(f.Tables) {
		t.Fail("changed: fields", "%s: the font changed: length %d and %d, %d and %d tables", desc, old.Length, f.Length, len(old.Tables), len(f.Tables))
		return false
	}
	for k, v := range old.Tables {
		if !bytes.Equal(v, f.Tables[k]) {
			t.Fail("changed: table "+k, "%s: table %q of the font changed", desc, k)
			return false
		}
	}
	for _, x := range []struct {
		n    string
		a, b any
	}{{"maxp", old.Maxp, f.Maxp}, {"head", old.Head, f.Head}, {"hhea", old.Hhea, f.Hhea}, {"OS/2", old.OS2, f.OS2}, {"vhea", old.Vhea, f.Vhea}, {"hmtx", old.Hmtx, f.Hmtx}, {"vmtx", old.Vmtx, f.Vmtx}, {"kern", old.Kern, f.Kern}, {"name", old.Name, f.Name}} {
		if !reflect.DeepEqual(x.a, x.b) {
			t.Fail("changed: parsed "+x.n, "%s: the parsed %s table of the font changed", desc, x.n)
			return false
		}
	}
	a, b := maskHead(old.Write()), maskHead(f.Write())
	if !bytes.Equal(a, b) {
		t.Fail("changed: bytes", "%s: the font is written differently (%d and %d bytes)", desc, len(a), len(b))
		return false
	}
	return true
}

// maskHead clears what depends on the time of writing: the directory checksum, checksum adjustment and modification date of head.
func maskHead(b []byte) []byte {
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		d := b[12+16*i:]
		if string(d[:4]) == "head" {
			o := int(binary.BigEndian.Uint32(d[8:]))
			copy(d[4:8], make([]byte, 4))
			copy(b[o+8:o+12], make([]byte, 4))
			copy(b[o+28:o+36], make([]byte, 8))
		}
	}
	return b
}

// c08shapes are fonts of different glyph structure; the characters start at base.
func c08shapes(base rune) []struct {
	name string
	f    *ref.Font
} {
	type nf = struct {
		name string
		f    *ref.Font
	}
	var out []nf
	add := func(name string, gs []ref.Glyph, fn func(f *ref.Font)) {
		f := ttFont(gs)
		m := map[rune]uint16{}
		for i := 1; i < len(gs); i++ {
			m[base+rune(2*i)] = uint16(i)
		}
		if len(m) == 0 {
			m['\r'] = 0
		}
		f.Subs, f.Recs = cmap4(m)
		if fn != nil {
			fn(f)
		}
		out = append(out, nf{name, f})
	}
	s := func(k int) ref.Glyph {
		return ref.Glyph{Contours: [][]ref.Point{sq(int16(5*k), int16(3*k), int16(60+k))}}
	}
	ins := func(k, n int) ref.Glyph {
		g := s(k)
		g.Instr = bytes.Repeat([]byte{byte(k)}, n)
		return g
	}
	c := func(ids ...uint16) ref.Glyph {
		g := ref.Glyph{}
		for i, id := range ids {
			g.Comps = append(g.Comps, ref.Component{GID: id, Dx: int16(10 * i), Dy: int16(300 * (i % 2))})
		}
		return g
	}
	ci := c(1, 2)
	ci.HasInstr, ci.Instr = true, []byte{1, 2, 3}
	ci.Comps[0].Kind, ci.Comps[0].M = 1, [4]int16{0x2000}
	ci.Comps[1].Kind, ci.Comps[1].M = 3, [4]int16{0x4000, 0x100, -0x100, 0x2000}
	ov := ref.Glyph{Contours: [][]ref.Point{sq(-30000, -200, 20000), sq(1, 2, 3)}, Overlap: true}
	add("notdef only", []ref.Glyph{s(0)}, nil)
	add("one", []ref.Glyph{s(0), s(1)}, nil)
	add("three", []ref.Glyph{s(0), s(1), s(2), s(3)}, nil)
	add("empty notdef", []ref.Glyph{{}, s(1), {}, s(2)}, nil)
	add("empty last", []ref.Glyph{s(0), {}, s(3), {}, {}}, nil)
	add("all empty", []ref.Glyph{{}, {}, {}}, nil)
	add("odd long", []ref.Glyph{ins(0, 1), ins(1, 2), ins(2, 3), ins(3, 0), ins(4, 5)}, func(f *ref.Font) { f.LongLoca = true })
	add("odd short", []ref.Glyph{ins(0, 1), ins(1, 2), ins(2, 3), ins(3, 0), ins(4, 5)}, nil)
	add("composite", []ref.Glyph{s(0), s(1), c(1), c(1, 2), s(4)}, nil)
	add("nested", []ref.Glyph{s(0), s(1), s(2), ci, c(3, 1), c(4)}, nil)
	add("forward", []ref.Glyph{c(4), c(3, 2), s(2), c(4), s(5)}, func(f *ref.Font) { f.LongLoca = true })
	add("uses notdef", []ref.Glyph{s(0), s(1), c(0, 1)}, nil)
	add("tail", []ref.Glyph{s(0), s(1), c(1)}, func(f *ref.Font) { f.GlyfTail = 7 })
	add("tail long", []ref.Glyph{s(0), ins(1, 1), c(1)}, func(f *ref.Font) { f.GlyfTail, f.LongLoca = 3, true })
	add("overlap", []ref.Glyph{s(0), ov, c(1)}, nil)
	add("padded", []ref.Glyph{s(0), {Contours: [][]ref.Point{sq(1, 1, 9)}, Pad: 2}, {Contours: [][]ref.Point{sq(2, 2, 9)}, Pad: 1}, c(1)}, func(f *ref.Font) { f.LongLoca = true })
	return out
}

func c08(e *core.Env) {
	// A: all ordered pairs and chains of glyph structures
	na := len(c08shapes(0))
	srcs := func(t *core.T, base rune) []*mSrc {
		var out []*mSrc
		for _, x := range c08shapes(base) {
			if s := newMSrc(t, x.name, x.f); s != nil {
				out = append(out, s)
			}
		}
		return out
	}
	for i := 0; i < na; i++ {
		e.Case(fmt.Sprintf("shapes %d", i), func(t *core.T) {
			as, bs, cs := srcs(t, 0x40), srcs(t, 0x100), srcs(t, 0x10400)
			for _, b := range bs {
				for _, re := range []bool{false, true} {
					r := as[i].merge(t, b, re)
					if r == nil {
						r = as[i]
					}
					for _, c := range cs {
						if t.E.Thorough || re == (len(c.g)%2 == 0) {
							r.merge(t, c, re)
						}
					}
				}
			}
		})
	}

	// B: kerning
	e.Case("kerning", func(t *core.T) {
		p := func(v ...int) (out []ref.KernPair) {
			for i := 0; i+2 < len(v); i += 3 {
				out = append(out, ref.KernPair{L: uint16(v[i]), R: uint16(v[i+1]), V: int16(v[i+2])})
			}
			return
		}
		var many []ref.KernPair
		for l := 1; l < 120; l++ {
			for r := 1; r < 100; r++ {
				many = append(many, ref.KernPair{L: uint16(l), R: uint16(r), V: int16(l*7 - r*3)})
			}
		}
		type kv struct {
			name string
			n    int
			subs []ref.KernSub
			ver  int
		}
		vs := []kv{
			{"none", 4, nil, 0},
			{"empty table", 4, []ref.KernSub{}, 0},
			{"one", 4, []ref.KernSub{{Coverage: 1, Pairs: p(1, 2, -10, 2, 1, 20, 3, 3, 5)}}, 0},
			{"notdef", 4, []ref.KernSub{{Coverage: 1, Pairs: p(0, 0, 3, 0, 1, 4, 1, 0, 5, 2, 3, 6)}}, 0},
			{"only notdef", 4, []ref.KernSub{{Coverage: 1, Pairs: p(0, 1, 4, 3, 0, 5)}}, 0},
			{"beyond", 4, []ref.KernSub{{Coverage: 1, Pairs: p(1, 2, 9, 1, 4, 11, 3, 5, 12, 4, 1, 13, 5, 5, 14, 65535, 1, 15)}}, 0},
			{"two", 4, []ref.KernSub{{Coverage: 1, Pairs: p(1, 2, 9, 2, 2, 1)}, {Coverage: 1, Pairs: p(1, 2, 3, 3, 1, -4)}}, 0},
			{"minimum", 4, []ref.KernSub{{Coverage: 1, Pairs: p(1, 2, -9, 2, 2, 1)}, {Coverage: 3, Pairs: p(1, 2, 0, 2, 2, 5, 3, 1, -6)}}, 0},
			{"minimum first", 4, []ref.KernSub{{Coverage: 3, Pairs: p(1, 2, 4, 2, 2, 5)}, {Coverage: 1, Pairs: p(1, 2, -20, 2, 3, 5)}}, 0},
			{"unsorted", 4, []ref.KernSub{{Coverage: 1, Pairs: p(3, 2, 4, 2, 2, 5, 1, 3, 6)}}, 0},
			{"low bits", 20, []ref.KernSub{{Coverage: 1, Pairs: p(1, 16, 4, 16, 1, 5, 16, 16, 6, 3, 4, 7)}}, 0},
			{"zero value", 4, []ref.KernSub{{Coverage: 1, Pairs: p(1, 2, 0, 2, 1, 1)}}, 0},
			{"no pairs", 4, []ref.KernSub{{Coverage: 1}}, 0},
			{"apple", 4, []ref.KernSub{{Coverage: 0, Pairs: p(1, 2, 14, 2, 1, -20)}}, 1},
			{"many", 130, []ref.KernSub{{Coverage: 1, Pairs: many}}, 0},
			{"full", 130, []ref.KernSub{{Coverage: 1, Pairs: many[:10920]}}, 0},
		}
		mk := func(v kv, base rune) *mSrc {
			f := ttFont(plain(v.n))
			m := map[rune]uint16{}
			for i := 1; i < v.n; i++ {
				m[base+rune(i)] = uint16(i)
			}
			f.Subs, f.Recs = cmap4(m)
			f.Kern, f.KernVer = v.subs, v.ver
			s := newMSrc(t, "kern "+v.name, f)
			return s
		}
		for i, v := range vs {
			a := mk(v, 0x40)
			for j, w := range vs {
				b := mk(w, 0x400)
				if a == nil || b == nil {
					return
				}
				if i >= len(vs)-2 && j >= len(vs)-2 && !t.E.Thorough && i != j {
					continue
				}
				if r := a.merge(t, b, false); r != nil && len(r.g) < 100 {
					r.merge(t, mk(vs[(i+j)%len(vs)], 0x800), false)
				}
			}
		}
		// one-glyph first font: the glyph numbers of the second stay as they are
		one := ttFont(plain(1))
		one.Subs, one.Recs = cmap4(map[rune]uint16{0x40: 0})
		for _, with := range []bool{false, true} {
			if with {
				one.Kern = []ref.KernSub{}
			}
			if a := newMSrc(t, "one glyph", one); a != nil {
				for _, w := range vs {
					a.merge(t, mk(w, 0x400), false)
				}
			}
		}
	})

	// C: names
	e.Case("names", func(t *core.T) {
		long := strings.Repeat("x", 63)
		vs := []struct {
			ver   int
			names []string
		}{
			{3, nil}, {1, nil},
			{2, []string{".notdef", "a", "b", "c"}},
			{2, []string{".notdef", "A", "x", "y"}},
			{2, []string{".notdef", "x", "x", "x"}},
			{2, []string{".notdef", "", "q", ""}},
			{2, []string{"", "", "", ""}},
			{2, []string{".notdef", ".notdef", "p", ".notdef"}},
			{2, []string{"first", "u1", "u2", "u3"}},
			{2, []string{".notdef", long, long[:62], "y"}},
			{2, []string{".notdef", "p", "a", "longername"}},
		}
		for i, v := range vs {
			for j, w := range vs {
				for k := 0; k < 3; k++ {
					f, g := ttFont(plain(4)), ttFont(plain(4))
					f.PostVer, f.Names = v.ver, v.names
					g.PostVer, g.Names = w.ver, w.names
					g.Subs, g.Recs = cmap4(map[rune]uint16{'a': 1, 'b': 2, 'c': 3})
					f.Fixed, g.Fixed = uint32(k&1), uint32(k>>1)
					a, b := newMSrc(t, fmt.Sprintf("names %d", i), f), newMSrc(t, fmt.Sprintf("names %d", j), g)
					if a == nil || b == nil {
						return
					}
					r := a.merge(t, b, k == 1)
					if r == nil {
						continue
					}
					// names are found again
					fa, _ := font.ParseSFNT(clone(r.b), 0)
					for x := range r.g {
						if nm := r.g[x].api.Name; fa.GlyphName(fa.FindGlyphName(nm)) != nm {
							t.Fail("name lookup", "%s: %q finds glyph %d", r.desc, nm, fa.FindGlyphName(nm))
						}
					}
				}
			}
		}
		// names are also found in memory, whether or not a name was looked up before the merge
		for pre := 0; pre < 4; pre++ {
			f, g := ttFont(plain(4)), ttFont(plain(4))
			f.PostVer, f.Names = 2, vs[2].names
			g.PostVer, g.Names = 2, vs[3].names
			g.Subs, g.Recs = cmap4(map[rune]uint16{'a': 1, 'b': 2, 'c': 3})
			fa, _ := font.ParseSFNT(f.SFNT(), 0)
			fb, _ := font.ParseSFNT(g.SFNT(), 0)
			if pre&1 != 0 {
				fa.FindGlyphName("b")
			}
			if pre&2 != 0 {
				fb.FindGlyphName("y")
			}
			if err := fa.Merge(fb, font.MergeOptions{}); err != nil {
				t.Fail("merge fails", "names: %v", err)
				return
			}
			t.Trace()
			for i, nm := range []string{".notdef", "a", "b", "c", "A", "x", "y", "zzz"} {
				if got := fa.FindGlyphName(nm); int(got) != i%7 {
					t.Fail("name lookup", "merged names (lookups before: %d): %q finds glyph %d, expected %d", pre, nm, got, i%7)
				}
			}
		}
		// standard Macintosh order with more glyphs than names
		f, g := ttFont(plain(300)), ttFont(plain(270))
		f.PostVer, g.PostVer = 1, 1
		g.Subs, g.Recs = cmap4(map[rune]uint16{'?': 1})
		a, b := newMSrc(t, "mac 300", f), newMSrc(t, "mac 270", g)
		if a != nil && b != nil {
			a.merge(t, b, true)
		}
	})

	// D: characters: every assignment of a set of characters to the glyphs of both fonts
	chars := []rune{0x41, 0x42, 0xFF, 0x10400}
	e.Case("characters", func(t *core.T) {
		sets := func() (out []map[rune]uint16) {
			n := 1
			for range chars {
				n *= 3
			}
			for k := 0; k < n; k++ {
				m := map[rune]uint16{}
				for i, x := 0, k; i < len(chars); i, x = i+1, x/3 {
					if x%3 > 0 {
						m[chars[i]] = uint16(x % 3)
					}
				}
				out = append(out, m)
			}
			return
		}()
		mk := func(desc string, m map[rune]uint16, format int, named bool) *mSrc {
			f := ttFont(plain(3))
			if named {
				f.PostVer, f.Names = 2, []string{".notdef", "A", "q"}
			}
			switch format {
			case 4:
				mm := map[rune]uint16{}
				for r, g := range m {
					if r < 0x10000 {
						mm[r] = g
					}
				}
				f.Subs, f.Recs = cmap4(mm)
			case 12:
				f.Subs, f.Recs = cmap12(m)
			case 16: // two subtables, the second also maps a character to another glyph
				mm := map[rune]uint16{}
				for r, g := range m {
					if r < 0x10000 {
						mm[r] = g
					}
				}
				m2 := map[rune]uint16{0x43: 2}
				for r, g := range m {
					m2[r] = 3 - g
				}
				f.Subs = []ref.CmapSub{{Format: 4, Map: mm}, {Format: 12, Map: m2}}
				f.Recs = []ref.CmapRec{{Platform: 0, Encoding: 3, Sub: 0}, {Platform: 3, Encoding: 10, Sub: 1}}
			}
			return newMSrc(t, desc, f)
		}
		for v, ff := range [][2]int{{12, 12}, {4, 12}, {12, 4}, {16, 12}, {4, 16}, {12, 12}, {12, 12}} {
			var bs []*mSrc
			for i, m := range sets {
				bs = append(bs, mk(fmt.Sprintf("chars %d/%d", ff[1], i), m, ff[1], v >= 5))
			}
			for i, m := range sets {
				a := mk(fmt.Sprintf("chars %d/%d", ff[0], i), m, ff[0], v == 5)
				for j, b := range bs {
					if !t.E.Thorough && (ff[0] != 12 || v > 5) && (i+j)%7 != 0 {
						continue
					}
					a.merge(t, b, (i+j)%3 == 2)
					if t.E.Thorough {
						a.merge(t, b, (i+j)%3 != 2)
					}
				}
			}
		}
		// characters of .notdef are no claims
		for k := 0; k < 4; k++ {
			f, g := ttFont(plain(3)), ttFont(plain(3))
			f.Subs, f.Recs = cmap12(map[rune]uint16{'A': uint16(k & 1), 'B': 2})
			g.Subs, g.Recs = cmap12(map[rune]uint16{'A': uint16(k >> 1), 'C': 2})
			a, b := newMSrc(t, "notdef char", f), newMSrc(t, "notdef char", g)
			if a != nil && b != nil {
				a.merge(t, b, false)
				a.merge(t, b, true)
			}
		}
	})

	// E: metrics tables
	e.Case("metrics", func(t *core.T) {
		for n := 1; n <= 4; n++ {
			for m := 2; m <= 4; m++ {
				for i := 0; i < n*(n+2); i++ {
					for j := 0; j < m*(m+2); j++ {
						mk := func(desc string, n, k, s int) *mSrc {
							f := ttFont(plain(n))
							f.Subs, f.Recs = cmap4(map[rune]uint16{rune('A' + s): uint16(min(1, n-1))})
							f.UPM = uint16(1000 + s)
							f.NHM = 1 + k%n
							for x := range f.Adv {
								f.Adv[x] = uint16(300 + s + 10*min(x, f.NHM-1))
								f.LSB[x] = int16(s - 7*x)
							}
							switch v := k / n; v {
							case 0: // no vertical metrics
							case 1: // all equal
								f.VAdv, f.TSB, f.NVM = make([]uint16, n), make([]int16, n), 1
								for x := range f.VAdv {
									f.VAdv[x], f.TSB[x] = uint16(800+s), int16(s+x)
								}
							default:
								f.NVM = v - 1
								f.VAdv, f.TSB = make([]uint16, n), make([]int16, n)
								for x := range f.VAdv {
									f.VAdv[x], f.TSB[x] = uint16(900+s+5*min(x, f.NVM-1)), int16(s-x)
								}
							}
							return newMSrc(t, fmt.Sprintf("%s %d/%d", desc, n, k), f)
						}
						a, b := mk("metrics", n, i, 0), mk("metrics", m, j, 3)
						if a == nil || b == nil {
							return
						}
						a.merge(t, b, false)
					}
				}
			}
		}
	})

	// F: optional tables
	e.Case("optional tables", func(t *core.T) {
		mk := func(k int, base rune) *mSrc {
			f := ttFont(plain(3))
			f.Subs, f.Recs = cmap4(map[rune]uint16{base: 1, base + 1: 2})
			f.NoOS2 = k&1 != 0
			if k&2 != 0 {
				f.Extra = map[string][]byte{"cvt ": {0, 1, 0, 2}, "prep": {9}, "ZZZZ": {1, 2, 3}}
			}
			if k&4 != 0 {
				f.OS2 = &ref.OS2{Version: k >> 3, Range: [4]uint32{0x80000000, 0xF0, 0xF00, uint32(base)}, TypoAsc: 700, TypoDesc: -200, WinAsc: 800, WinDesc: 300}
			}
			if k&8 != 0 {
				f.PostVer, f.Names = 2, []string{".notdef", fmt.Sprintf("n%d", base), "m"}
				f.Kern = []ref.KernSub{{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: 5}}}}
			}
			return newMSrc(t, fmt.Sprintf("tables %d", k), f)
		}
		for i := 0; i < 48; i++ {
			for j := 0; j < 48; j++ {
				a, b := mk(i, 'A'), mk(j, 'a')
				if a == nil || b == nil {
					return
				}
				a.merge(t, b, false)
			}
		}
	})

	// G: limits of glyph count and table size
	big := func(n, m int) {
		e.Case(fmt.Sprintf("count %d+%d", n, m), func(t *core.T) {
			mk := func(n int, base rune) *mSrc {
				gs := make([]ref.Glyph, n)
				for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
					if i >= 0 {
						gs[i] = ref.Glyph{Contours: [][]ref.Point{sq(int16(i%1000), int16(base%100), 77)}}
					}
				}
				if n > 4 {
					gs[n-1] = ref.Glyph{Comps: []ref.Component{{GID: uint16(n - 2)}, {GID: 1, Dx: 100}}}
				}
				f := ttFont(gs)
				f.NHM = 1
				for x := range f.Adv {
					f.Adv[x] = 444
				}
				mp := map[rune]uint16{base: 1, base + 1: uint16(n - 1)}
				f.Subs, f.Recs = cmap4(mp)
				if n > 4 {
					f.Kern = []ref.KernSub{{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: uint16(n - 1), V: 5}, {L: uint16(n - 1), R: 1, V: 8}}}}
				}
				return newMSrc(t, fmt.Sprintf("%d glyphs", n), f)
			}
			a, b := mk(n, 0x41), mk(m, 0x61)
			if a == nil || b == nil {
				return
			}
			a.merge(t, b, false)
			a.merge(t, b, true)
		})
	}
	big(65534, 2)
	big(2, 65534)
	big(65535, 2)
	big(65533, 2)
	big(65500, 10)
	big(40000, 25535)
	big(40000, 25537)
	if e.Thorough {
		big(32768, 32767)
		big(32768, 32768)
		big(65400, 100)
		big(65503, 5)
		big(65534, 3)
		big(65535, 65535)
	}
	e.Case("glyf size", func(t *core.T) {
		// total sizes around the limits of the short loca format
		mk := func(sizes []int, base rune, long bool) *mSrc {
			gs := []ref.Glyph{{}}
			for i, n := range sizes {
				g := ref.Glyph{Contours: [][]ref.Point{sq(int16(i), 0, 50)}}
				g.Instr = bytes.Repeat([]byte{byte(i)}, n)
				gs = append(gs, g)
			}
			f := ttFont(gs)
			f.LongLoca = long
			m := map[rune]uint16{}
			for i := range sizes {
				m[base+rune(i)] = uint16(1 + i)
			}
			f.Subs, f.Recs = cmap4(m)
			return newMSrc(t, fmt.Sprintf("sizes %v long=%v", sizes, long), f)
		}
		for _, tot := range []int{65535, 65536, 131070, 131072} {
			for d := -60; d <= 4; d++ {
				for k := 0; k < 4; k++ {
					if !t.E.Thorough && k != (d+60)%4 {
						continue
					}
					h := tot / 2
					a, b := mk([]int{h / 2, h / 2}, 'A', k&1 != 0), mk([]int{h - 60 + d, 3}, 'a', k&2 != 0)
					if a == nil || b == nil {
						return
					}
					a.merge(t, b, false)
				}
			}
		}
	})

	// H: outline kinds
	e.Case("outline kinds", func(t *core.T) {
		tt := newMSrc(t, "truetype", ttFont(plain(3)))
		c := newMSrc(t, "cff", cffSrcFont([][]byte{padCS(0), padCS(1), padCS(2)}, ref.CFFInfo{}))
		one := newMSrc(t, "truetype one glyph", ttFont(plain(1)))
		cone := newMSrc(t, "cff one glyph", cffSrcFont([][]byte{padCS(0)}, ref.CFFInfo{}))
		for _, x := range []*mSrc{tt, one} {
			for _, y := range []*mSrc{c, cone} {
				for _, re := range []bool{false, true} {
					x.merge(t, y, re)
					y.merge(t, x, re)
				}
			}
		}
	})

	// I: parts of a real font are merged again
	e.Case("real font", func(t *core.T) {
		b := resource("resources/DejaVuSerif.ttf")
		f, err := font.ParseSFNT(b, 0)
		if err != nil {
			t.Fail("parse", "%v", err)
			return
		}
		step := 200
		if t.E.Thorough {
			step = 50
		}
		part := func(lo, hi int) *mSrc {
			l := []uint16{0}
			for g := lo; g < hi; g++ {
				l = append(l, uint16(g))
			}
			s, err := f.Subset(l, font.SubsetOptions{Tables: font.KeepMinTables})
			if err != nil {
				t.Fail("subset fails", "glyphs %d to %d: %v", lo, hi, err)
				return nil
			}
			sb := s.Write()
			_, tb, err := ref.ReadDir(sb)
			if err != nil {
				t.Fail("malformed subset", "%v", err)
				return nil
			}
			rf, err := ref.ReadTables(string(sb[:4]), tb)
			if err != nil {
				t.Fail("malformed subset", "%v", err)
				return nil
			}
			var datas [][]byte
			for _, g := range rf.Glyphs {
				datas = append(datas, g.Data)
			}
			return newMSrcBytes(t, fmt.Sprintf("glyphs %d to %d", lo, hi), sb, datas)
		}
		n := int(f.NumGlyphs())
		for lo := 3; lo+2*step < n; lo += step {
			// components may be part of both: their characters are claimed twice
			x, y := part(lo, lo+step), part(lo+step, lo+2*step)
			if x == nil || y == nil {
				return
			}
			x.merge(t, y, true)
			x.merge(t, y, false)
			y.merge(t, x, true)
		}
	})
	e.Wait()
}
