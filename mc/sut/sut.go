// Package sut observes the library under test through its exported API only.
package sut

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/tdewolff/font"

	"verifmc/ref"
)

// Rec records a path.
type Rec struct {
	P    ref.Path
	open bool
}

func (r *Rec) MoveTo(x, y float64) {
	r.P = append(r.P, ref.Seg{Op: 'M', A: [6]float64{x, y}})
	r.open = true
}
func (r *Rec) LineTo(x, y float64) { r.P = append(r.P, ref.Seg{Op: 'L', A: [6]float64{x, y}}) }
func (r *Rec) QuadTo(a, b, x, y float64) {
	r.P = append(r.P, ref.Seg{Op: 'Q', A: [6]float64{a, b, x, y}})
}
func (r *Rec) CubeTo(a, b, c, d, x, y float64) {
	r.P = append(r.P, ref.Seg{Op: 'C', A: [6]float64{a, b, c, d, x, y}})
}
func (r *Rec) Close() {
	if r.open {
		r.P = append(r.P, ref.Seg{Op: 'Z'})
	}
	r.open = false
}

// Path draws a glyph at the origin.
func Path(f *font.SFNT, gid uint16) (ref.Path, error) {
	r := &Rec{}
	err := f.GlyphPath(r, gid, 0, 0, 0, 1, font.NoHinting)
	return r.P, err
}

// Glyph is what the API tells about a glyph.
type Glyph struct {
	Path  string
	Err   string
	BBox  [4]int16
	Adv   uint16
	LSB   int16
	VAdv  uint16
	Name  string
	Runes []rune
}

// View is what the API tells about a font.
type View struct {
	N      int
	UPM    int
	Glyphs []Glyph
	Cmap   map[rune]uint16
	Kern   map[[2]uint16]int16
	VM     [3]uint16
	Find   map[string]uint16
}

// Opt selects what is observed.
type Opt struct {
	Runes  []rune
	Pairs  [][2]uint16 // nil: all pairs when the font is small
	NoPath bool
	Glyphs []int // nil all
	Names  []string
}

// Observe queries the font.
func Observe(f *font.SFNT, o Opt) *View {
	v := &View{N: int(f.NumGlyphs()), UPM: int(f.UnitsPerEm()), Cmap: map[rune]uint16{}, Kern: map[[2]uint16]int16{}, Find: map[string]uint16{}}
	ids := o.Glyphs
	if ids == nil {
		for i := 0; i < v.N; i++ {
			ids = append(ids, i)
		}
	}
	for _, i := range ids {
		g := Glyph{}
		id := uint16(i)
		if !o.NoPath {
			p, err := Path(f, id)
			if err != nil {
				g.Err = "error"
			} else {
				g.Path = p.String()
			}
		}
		g.BBox[0], g.BBox[1], g.BBox[2], g.BBox[3] = f.GlyphBounds(id)
		if f.Hmtx != nil {
			g.Adv = f.GlyphAdvance(id)
			g.LSB = f.Hmtx.LeftSideBearing(id)
		}
		if f.Head != nil {
			g.VAdv = f.GlyphVerticalAdvance(id)
		}
		if f.IsCFF || f.Post != nil {
			g.Name = f.GlyphName(id)
		}
		if i > 0 {
			g.Runes = append([]rune{}, f.GlyphToUnicode(id)...)
			sort.Slice(g.Runes, func(a, b int) bool { return g.Runes[a] < g.Runes[b] })
		}
		v.Glyphs = append(v.Glyphs, g)
	}
	for _, r := range o.Runes {
		if g := f.GlyphIndex(r); g != 0 {
			v.Cmap[r] = g
		}
	}
	if o.Pairs != nil {
		for _, p := range o.Pairs {
			if k := f.Kerning(p[0], p[1]); k != 0 {
				v.Kern[p] = k
			}
		}
	} else if v.N <= 80 {
		for a := 0; a < v.N; a++ {
			for b := 0; b < v.N; b++ {
				if k := f.Kerning(uint16(a), uint16(b)); k != 0 {
					v.Kern[[2]uint16{uint16(a), uint16(b)}] = k
				}
			}
		}
	}
	if f.Hhea != nil {
		v.VM[0], v.VM[1], v.VM[2] = f.VerticalMetrics()
	}
	for _, n := range o.Names {
		if f.IsCFF || f.Post != nil {
			v.Find[n] = f.FindGlyphName(n)
		}
	}
	return v
}

// Diff compares two views and returns the class and description of the first difference.
func Diff(a, b *View) (string, string) {
	if a.N != b.N {
		return "glyph count", fmt.Sprintf("%d and %d glyphs", a.N, b.N)
	}
	if a.UPM != b.UPM {
		return "units per em", fmt.Sprintf("%d and %d", a.UPM, b.UPM)
	}
	for i := range a.Glyphs {
		if i >= len(b.Glyphs) {
			break
		}
		if c, d := DiffGlyph(&a.Glyphs[i], &b.Glyphs[i]); c != "" {
			return c, fmt.Sprintf("glyph %d: %s", i, d)
		}
	}
	if c, d := DiffMaps(a, b); c != "" {
		return c, d
	}
	if a.VM != b.VM {
		return "line metrics", fmt.Sprintf("%v and %v", a.VM, b.VM)
	}
	for n, g := range a.Find {
		if b.Find[n] != g {
			return "name lookup", fmt.Sprintf("%q: %d and %d", n, g, b.Find[n])
		}
	}
	return "", ""
}

// DiffMaps compares character map and kerning.
func DiffMaps(a, b *View) (string, string) {
	for r, g := range a.Cmap {
		if b.Cmap[r] != g {
			return "character map", fmt.Sprintf("U+%04X: glyph %d and %d", r, g, b.Cmap[r])
		}
	}
	for r, g := range b.Cmap {
		if a.Cmap[r] != g {
			return "character map", fmt.Sprintf("U+%04X: glyph %d and %d", r, a.Cmap[r], g)
		}
	}
	for p, k := range a.Kern {
		if b.Kern[p] != k {
			return "kerning", fmt.Sprintf("pair %v: %d and %d", p, k, b.Kern[p])
		}
	}
	for p, k := range b.Kern {
		if a.Kern[p] != k {
			return "kerning", fmt.Sprintf("pair %v: %d and %d", p, a.Kern[p], k)
		}
	}
	return "", ""
}

// DiffGlyph compares two glyphs.
func DiffGlyph(a, b *Glyph) (string, string) {
	switch {
	case a.Err != b.Err:
		return "outline error", fmt.Sprintf("%q and %q", a.Err, b.Err)
	case a.Path != b.Path:
		return "outline", fmt.Sprintf("%s and %s", short(a.Path), short(b.Path))
	case a.BBox != b.BBox:
		return "bounds", fmt.Sprintf("%v and %v", a.BBox, b.BBox)
	case a.Adv != b.Adv:
		return "advance", fmt.Sprintf("%d and %d", a.Adv, b.Adv)
	case a.LSB != b.LSB:
		return "bearing", fmt.Sprintf("%d and %d", a.LSB, b.LSB)
	case a.VAdv != b.VAdv:
		return "vertical advance", fmt.Sprintf("%d and %d", a.VAdv, b.VAdv)
	case a.Name != b.Name:
		return "name", fmt.Sprintf("%q and %q", a.Name, b.Name)
	case !RunesEq(a.Runes, b.Runes):
		return "characters of glyph", fmt.Sprintf("%x and %x", a.Runes, b.Runes)
	}
	return "", ""
}

// RunesEq compares rune lists.
func RunesEq(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// ProbeRunes returns the covered code points of the map, their neighbours and boundary values.
func ProbeRunes(c *ref.Cmap) []rune {
	m := map[rune]bool{0: true, 1: true, 0xFF: true, 0x100: true, 0xFFFE: true, 0xFFFF: true, 0x10000: true, 0x10FFFF: true, -1: true, math.MaxInt32: true}
	for _, r := range c.Runes() {
		m[r-1], m[r], m[r+1] = true, true, true
	}
	out := make([]rune, 0, len(m))
	for r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// Expect is the view of a strictly decoded font according to the reference.
func Expect(f *ref.RFont, o Opt) (*View, error) {
	v := &View{N: f.N, UPM: f.UPM, Cmap: map[rune]uint16{}, Kern: map[[2]uint16]int16{}, Find: map[string]uint16{}}
	ids := o.Glyphs
	if ids == nil {
		for i := 0; i < v.N; i++ {
			ids = append(ids, i)
		}
	}
	inv := f.Cmap.Inverse()
	for _, i := range ids {
		g := Glyph{Adv: f.Adv[i], LSB: f.LSB[i], VAdv: uint16(f.UPM)}
		if f.VAdv != nil {
			g.VAdv = f.VAdv[i]
		}
		p, err := f.Path(i)
		if err != nil {
			g.Err = "error"
		} else if !o.NoPath {
			g.Path = p.String()
		}
		if f.CFF {
			g.BBox = CFFBounds(p)
			if !f.C.CID {
				g.Name = f.C.Charset[i]
			}
		} else {
			g.BBox = f.Glyphs[i].BBox
			if f.Names != nil && i < len(f.Names) {
				g.Name = f.Names[i]
			}
		}
		if i > 0 {
			g.Runes = append([]rune{}, inv[uint16(i)]...)
		}
		v.Glyphs = append(v.Glyphs, g)
	}
	for _, r := range o.Runes {
		if g := f.Cmap.Get(r); g != 0 {
			v.Cmap[r] = g
		}
	}
	pairs := o.Pairs
	if pairs == nil && v.N <= 80 {
		for a := 0; a < v.N; a++ {
			for b := 0; b < v.N; b++ {
				pairs = append(pairs, [2]uint16{uint16(a), uint16(b)})
			}
		}
	}
	for _, p := range pairs {
		if k := ref.KernValue(f.Kern, p[0], p[1]); k != 0 {
			v.Kern[p] = k
		}
	}
	return v, nil
}

// CFFBounds is the control-point box of a path, rounded outwards.
func CFFBounds(p ref.Path) [4]int16 {
	x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, s := range p {
		n := map[byte]int{'M': 1, 'L': 1, 'Q': 2, 'C': 3}[s.Op]
		for k := 0; k < n; k++ {
			x0, x1 = math.Min(x0, s.A[2*k]), math.Max(x1, s.A[2*k])
			y0, y1 = math.Min(y0, s.A[2*k+1]), math.Max(y1, s.A[2*k+1])
		}
	}
	if x0 > x1 {
		return [4]int16{}
	}
	return [4]int16{int16(math.Floor(x0)), int16(math.Floor(y0)), int16(math.Ceil(x1)), int16(math.Ceil(y1))}
}

// Canon is a canonical text of a view, used as abstract state.
func (v *View) Canon() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d %v", v.N, v.UPM, v.VM)
	for _, g := range v.Glyphs {
		fmt.Fprintf(&b, "|%s %v %d %d %s %x", g.Path, g.BBox, g.Adv, g.LSB, g.Name, g.Runes)
	}
	rs := make([]int, 0, len(v.Cmap))
	for r := range v.Cmap {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	for _, r := range rs {
		fmt.Fprintf(&b, ";%d=%d", r, v.Cmap[rune(r)])
	}
	ks := make([]int, 0, len(v.Kern))
	for p := range v.Kern {
		ks = append(ks, int(p[0])<<16|int(p[1]))
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, ",%x=%d", k, v.Kern[[2]uint16{uint16(k >> 16), uint16(k)}])
	}
	return b.String()
}
