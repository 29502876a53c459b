package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Check{ID: "C09", Run: c09, CaseLimit: 10 * time.Minute,
		Rule: "for every explored pair (and chain) of CFF fonts, after the merge position i draws the outline of glyph i of the first font, or of glyph i-n+1 of the second, with its advance, bearing, bounds and name, and executes the same operators (hints and width included) when subroutines are inlined; " +
			"in memory, after taking subsets of the merged font in memory, re-parsed, and by the reference reader and charstring interpreter on the written bytes; after an error the first font answers and writes as before",
		Assumptions: []string{
			"fonts with several font dictionaries and CFF fonts in which a subroutine number is not pushed directly in front of the call may be refused",
			"the private dictionary (hint zones, default widths) is that of the first font; advances are those of the horizontal metrics table",
			"n+m-1 = 65535 glyphs may be refused",
			"kerning of the second font is not claimed for CFF fonts"}})
}

// c09counts makes a font with the given numbers of local and global subroutines and a glyph for each of the called ones.
func c09counts(t *core.T, name string, n [2]int, call [2][]int, base rune) *mSrc {
	var ci ref.CFFInfo
	var cs [][]byte
	cs = append(cs, ref.CS(1, 2, "rmoveto", 30, "hlineto", "endchar"))
	names := []string{".notdef"}
	for k := 0; k < 2; k++ {
		subs := make([][]byte, n[k])
		for i := range subs {
			subs[i] = []byte{11}
		}
		opn := []string{"callsubr", "callgsubr"}[k]
		for _, i := range call[k] {
			if len(subs[i]) > 1 {
				continue
			}
			subs[i] = ref.CS(i%1000+1, i/1000+1, "rlineto", 7+k, "vlineto", "return")
			cs = append(cs, ref.CS(10, 20, "rmoveto", i-ref.Bias(n[k]), opn, 5, "hlineto", "endchar"))
			names = append(names, fmt.Sprintf("%s%c%d", name[:1], "lg"[k], i))
		}
		if k == 0 {
			ci.Local = subs
		} else {
			ci.Global = subs
		}
	}
	// one glyph calls all
	all := []any{3, "hmoveto"}
	for k, opn := range []string{"callsubr", "callgsubr"} {
		for _, i := range call[k] {
			all = append(all, i-ref.Bias(n[k]), opn)
		}
	}
	cs = append(cs, ref.CS(append(all, 9, "vlineto", "endchar")...))
	names = append(names, name[:1]+"all")
	ci.Charset = names
	f := cffSrcFont(cs, ci)
	m := map[rune]uint16{}
	for i := 1; i < len(cs); i++ {
		m[base+rune(i)] = uint16(i)
	}
	f.Subs, f.Recs = cmap4(m)
	return newMSrc(t, fmt.Sprintf("%s: %d local, %d global", name, n[0], n[1]), f)
}

// c09calls lists the subroutines at which encodings change, for a font with n subroutines that are moved up by off in one of total.
func c09calls(n, off, total int) (out []int) {
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for _, i := range []int{0, 1, n - 2, n - 1} {
		add(i)
	}
	for _, b := range []int{ref.Bias(n), ref.Bias(total) - off} {
		for _, d := range []int{-1132, -1131, -108, -107, 0, 107, 108, 1131, 1132} {
			add(b + d)
		}
	}
	return
}

func c09(e *core.Env) {
	// A: numbers of subroutines around the limits of the number encoding and the bias
	counts := func(t *core.T, a, b [2]int) {
		var ca, cb [2][]int
		for k := 0; k < 2; k++ {
			ca[k] = c09calls(a[k], 0, a[k]+b[k])
			cb[k] = c09calls(b[k], a[k], a[k]+b[k])
		}
		x, y := c09counts(t, "A", a, ca, 0x40), c09counts(t, "B", b, cb, 0x400)
		if x == nil || y == nil {
			return
		}
		// an INDEX holds no more than 65535
		y.nd = y.nd || a[0]+b[0] > 65535 || a[1]+b[1] > 65535
		r := x.merge(t, y, false)
		if r != nil && a[0]+b[0] < 5000 && a[1]+b[1] < 5000 {
			if z := c09counts(t, "C", [2]int{3, 3}, [2][]int{{0, 2}, {0, 2}}, 0x800); z != nil {
				r.merge(t, z, false)
				z.merge(t, r, true)
			}
		}
	}
	ns := []int{0, 1, 2, 108, 215, 600, 640, 1238, 1239, 1240, 1241}
	other := [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 3}, {1239, 1}, {1, 1239}, {1240, 2}}
	if e.Thorough {
		ns = append(ns, 3, 107, 109, 214, 216, 619, 620, 621, 1131, 1132, 1237, 1242, 2400)
		other = append(other, [2]int{620, 620}, [2]int{620, 619}, [2]int{0, 1240}, [2]int{1241, 1241}, [2]int{2, 1238})
	}
	for _, n := range ns {
		e.Case(fmt.Sprintf("counts %d", n), func(t *core.T) {
			for i, m := range ns {
				for j, o := range other {
					if !t.E.Thorough && j > 3 && (i+j+n)%2 == 0 {
						continue
					}
					counts(t, [2]int{n, o[0]}, [2]int{m, o[1]})
					if n != m || o[0] != o[1] {
						counts(t, [2]int{o[0], n}, [2]int{o[1], m})
					}
				}
			}
		})
	}
	large := [][2]int{{33899, 0}, {33899, 1}, {1, 33899}, {33898, 1}, {33900, 1}, {1239, 32661}, {1239, 32660}, {17000, 16900}, {32768, 1131}, {33900, 31000}, {65535, 0}, {40000, 25535}}
	if e.Thorough {
		large = append(large, [2]int{0, 33900}, [2]int{1, 33898}, [2]int{33899, 33899}, [2]int{1240, 32659}, [2]int{1240, 32660}, [2]int{0, 65535}, [2]int{65534, 1}, [2]int{32767, 1133}, [2]int{30000, 35000})
	}
	for _, l := range large {
		e.Case(fmt.Sprintf("counts %d+%d", l[0], l[1]), func(t *core.T) {
			for k := 0; k < 2; k++ {
				for _, o := range [][2]int{{0, 0}, {1, 2}} {
					a, b := [2]int{o[0], o[0]}, [2]int{o[1], o[1]}
					a[k], b[k] = l[0], l[1]
					counts(t, a, b)
				}
			}
		})
	}
	e.Case("too many subroutines", func(t *core.T) {
		// more than an INDEX can hold: must not be corrupted
		for k := 0; k < 2; k++ {
			a, b := [2]int{}, [2]int{}
			a[k], b[k] = 40000, 25536
			var ca, cb [2][]int
			ca[k], cb[k] = c09calls(a[k], 0, a[k]), c09calls(b[k], 0, b[k])
			x, y := c09counts(t, "A", a, ca, 0x40), c09counts(t, "B", b, cb, 0x400)
			if x == nil || y == nil {
				return
			}
			y.nd = true
			x.merge(t, y, false)
		}
	})

	// B: all small calling structures: up to two subroutines in each font
	type st struct {
		local []bool
		edge  bool // 0 calls 1
		perm  []int
		glyph int // bits: which subroutines the glyph calls
		end   int // how programs end: 0 return/endchar, 1 endchar inside the last subroutine
	}
	var sts []st
	sts = append(sts, st{})
	for _, l := range [][]bool{{false}, {true}} {
		for _, end := range []int{0, 1} {
			sts = append(sts, st{local: l, glyph: 1, end: end, perm: []int{0}})
		}
		sts = append(sts, st{local: l, glyph: 0, perm: []int{0}})
	}
	for k := 0; k < 4; k++ {
		l := []bool{k&1 != 0, k&2 != 0}
		for _, p := range perms(2) {
			for _, edge := range []bool{false, true} {
				for g := 1; g < 4; g++ {
					for end := 0; end < 2; end++ {
						sts = append(sts, st{l, edge, p, g, end})
					}
				}
			}
		}
	}
	mk := func(t *core.T, k int, s st, base rune, variant int) *mSrc {
		set := newSubrSet(s.local, s.perm)
		var bodies [][]byte
		for i := range s.local {
			it := []any{base%50 + rune(10*i), 3}
			its := []any{int(it[0].(rune)), 3 + i, "rlineto"}
			if variant == 1 && i == 0 {
				its = []any{1, 2, "hstemhm", 3, 4, "hintmask", []byte{0xC0}, 5, 6, "rmoveto", 7, "hlineto"}
			}
			if s.edge && i == 0 {
				its = append(its, set.call(1)...)
				its = append(its, 4, "vlineto")
			}
			if s.end == 1 && i == len(s.local)-1 {
				its = append(its, "endchar")
			} else {
				its = append(its, "return")
			}
			bodies = append(bodies, ref.CS(its...))
		}
		var cs [][]byte
		cs = append(cs, ref.CS(0, "hmoveto", 9, 9, "rlineto", "endchar"))
		if s.glyph&1 != 0 && variant != 1 { // .notdef uses a subroutine as well
			cs[0] = ref.CS(append(append([]any{0, "hmoveto"}, set.call(0)...), "endchar")...)
			if s.end == 1 && (len(s.local) == 1 || s.edge) {
				cs[0] = cs[0][:len(cs[0])-1]
			}
		}
		for g := 0; g < 2; g++ {
			its := []any{g * 3, 5, "rmoveto"}
			if variant == 1 {
				its = nil
				if s.glyph&1 == 0 {
					its = []any{333, 1, 2, "rmoveto"} // with width
				}
			}
			ended := false
			for i := range s.local {
				if s.glyph>>i&1 != 0 {
					if ended {
						break
					}
					its = append(its, set.call(i)...)
					ended = s.end == 1 && (i == len(s.local)-1 || s.edge && i == 0)
				}
			}
			if len(its) == 0 {
				its = []any{1, 2, "rmoveto"}
			}
			if !ended {
				its = append(its, 2+g, "hlineto", "endchar")
			}
			cs = append(cs, ref.CS(its...))
		}
		f := cffSrcFont(cs, set.info(bodies))
		f.C.Charset = []string{".notdef", fmt.Sprintf("x%d", base), "y"}
		f.Subs, f.Recs = cmap4(map[rune]uint16{base: 1, base + 1: 2})
		return newMSrc(t, fmt.Sprintf("structure %d %+v", k, s), f)
	}
	for i, a := range sts {
		e.Case(fmt.Sprintf("structures %d", i), func(t *core.T) {
			for va := 0; va < 2; va++ {
				x := mk(t, i, a, 'A', va)
				for j, b := range sts {
					for vb := 0; vb < 2; vb++ {
						if !t.E.Thorough && (i+j+va)%2 != vb {
							continue
						}
						y := mk(t, j, b, 'a', vb)
						if x == nil || y == nil {
							return
						}
						x.merge(t, y, (i+j)%5 == 0)
					}
				}
			}
		})
	}

	// C: names, dictionaries and sizes
	e.Case("names", func(t *core.T) {
		var vs []*ref.Font
		for i := 0; i < 9; i++ {
			ci := ref.CFFInfo{Charset: []string{".notdef", "space", "exclam", "quotedbl"}}
			switch i {
			case 0:
				ci.CharsetFormat = 255
			case 1:
				ci.Charset = []string{".notdef", "a", "q", "zz"}
			case 2:
				ci.CharsetFormat, ci.Charset = 1, []string{".notdef", "B", "C", "own"}
			case 3:
				ci.CharsetFormat, ci.Charset = 2, []string{".notdef", "own", "own2", "own3"}
			case 4:
				ci.Charset = []string{".notdef", "same", "same", "same"}
			case 5:
				ci.Charset = []string{".notdef", "", ".notdef", "x"}
			case 6:
				ci.FontName, ci.FullName = "Other", "Other Name"
				ci.OffSize = 3
			case 7:
				ci.DefaultW, ci.NominalW, ci.WriteWidths = 500, 400, true
			case 8:
				ci.OffSize, ci.FontMatrix = 4, true
			}
			f := cffSrcFont([][]byte{padCS(5), padCS(9), padCS(20), padCS(30)}, ci)
			f.C.Local, f.C.Global = [][]byte{{11}}, [][]byte{{11}}
			vs = append(vs, f)
		}
		for i, f := range vs {
			for j, g := range vs {
				gg := *g
				gg.Subs, gg.Recs = cmap4(map[rune]uint16{'a': 1, 'b': 2, 'c': 3})
				gg.NHM = 1 + j%4
				gg.Adv = []uint16{300, 310, 320, 330}
				for k := range gg.Adv {
					gg.Adv[k] = uint16(300 + 10*min(k, gg.NHM-1))
				}
				a, b := newMSrc(t, fmt.Sprintf("font %d", i), f), newMSrc(t, fmt.Sprintf("font %d", j), &gg)
				if a == nil || b == nil {
					return
				}
				r := a.merge(t, b, false)
				a.merge(t, b, true)
				if r == nil {
					continue
				}
				fa, _ := font.ParseSFNT(clone(r.b), 0)
				for x := range r.g {
					if nm := r.g[x].api.Name; fa.GlyphName(fa.FindGlyphName(nm)) != nm {
						t.Fail("name lookup", "%s: %q finds glyph %d", r.desc, nm, fa.FindGlyphName(nm))
					}
				}
			}
		}
	})
	e.Case("sizes", func(t *core.T) {
		// data sizes around the limits of the offset size
		for _, lim := range []int{255, 256, 65535, 65536} {
			for d := -4; d <= 4; d++ {
				for k := 1; k < 4; k++ {
					mk := func(n int, base rune) *mSrc {
						cs := [][]byte{{14}}
						for n > 60000 {
							cs = append(cs, padCS(30000))
							n -= 30000
						}
						cs = append(cs, padCS(n))
						f := cffSrcFont(cs, ref.CFFInfo{Local: [][]byte{{11}}})
						m := map[rune]uint16{}
						for i := 1; i < len(cs); i++ {
							m[base+rune(i)] = uint16(i)
						}
						f.Subs, f.Recs = cmap4(m)
						return newMSrc(t, fmt.Sprintf("%d bytes", n), f)
					}
					a, b := mk(lim*k/4, 'A'), mk(lim-lim*k/4+d, 'a')
					if a != nil && b != nil {
						a.merge(t, b, false)
					}
				}
			}
		}
	})
	e.Case("glyph counts", func(t *core.T) {
		mk := func(n int, base rune) *mSrc {
			cs := make([][]byte, n)
			names := make([]string, n)
			for i := range cs {
				cs[i] = []byte{14}
				names[i] = "x"
			}
			cs[1] = ref.CS(1, 2, "rmoveto", -107, "callsubr", "endchar")
			cs[n-1] = ref.CS(3, 4, "rmoveto", -106, "callsubr", "endchar")
			f := cffSrcFont(cs, ref.CFFInfo{Charset: names, Local: [][]byte{ref.CS(int(base), "hlineto", "return"), ref.CS(5, "vlineto", "return")}})
			f.Subs, f.Recs = cmap4(map[rune]uint16{base: 1, base + 1: uint16(n - 1)})
			return newMSrc(t, fmt.Sprintf("%d glyphs", n), f)
		}
		for _, c := range [][2]int{{229, 2}, {2, 229}, {228, 3}, {256, 256}, {40000, 25535}, {40000, 25537}, {65534, 2}, {2, 65534}, {65533, 3}} {
			a, b := mk(c[0], 'A'), mk(c[1], 'a')
			if a != nil && b != nil {
				a.merge(t, b, false)
			}
		}
	})

	// D: CID-keyed fonts
	e.Case("CID", func(t *core.T) {
		mk := func(k int, base rune) *mSrc {
			loc := [][]byte{ref.CS(int(base), 6, "rlineto", "return")}
			cs := [][]byte{{14}, ref.CS(1, 2, "rmoveto", -107, "callsubr", "endchar"), ref.CS(1, 2, "rmoveto", 4, "hlineto", "endchar")}
			ci := ref.CFFInfo{}
			switch k {
			case 0:
				ci.Local = loc
			case 1, 2:
				ci.CID, ci.FDSelect, ci.FDFormat, ci.FDLocal = true, []byte{0, 0, 0}, 3*(k-1), [][][]byte{loc}
			case 3, 4:
				ci.CID, ci.FDSelect, ci.FDFormat, ci.FDLocal = true, []byte{0, 1, 0}, 3*(k-3), [][][]byte{loc, {ref.CS(int(base)+20, 6, "rlineto", "return")}}
			}
			f := cffSrcFont(cs, ci)
			f.Subs, f.Recs = cmap4(map[rune]uint16{base: 1, base + 1: 2})
			s := newMSrc(t, fmt.Sprintf("CID %d", k), f)
			if s != nil && k > 2 {
				s.nd = true
			}
			return s
		}
		for i := 0; i < 5; i++ {
			for j := 0; j < 5; j++ {
				a, b := mk(i, 'A'), mk(j, 'a')
				if a != nil && b != nil {
					a.merge(t, b, false)
					a.merge(t, b, true)
				}
			}
		}
	})

	// E: programs that hand numbers through subroutines
	e.Case("operands", func(t *core.T) {
		progs := [][]byte{
			ref.CS(1, 2, "rmoveto", 3, -107, "callsubr", "endchar"),                // operand for the subroutine
			ref.CS(-105, "callsubr", "rmoveto", 7, "hlineto", "endchar"),           // operands from the subroutine
			ref.CS(1, 2, "rmoveto", -104, "callsubr", "callsubr", "endchar"),       // number from the subroutine
			ref.CS(1, 2, "rmoveto", 9, -107, 3, "vlineto", "endchar"),              // looks like a call
			append(ref.CS(1, 2, "rmoveto"), append(ref.Num28(-107), 10, 14)...),    // long form
			append(ref.CS(1, 2, "rmoveto", 5), append(ref.Num28(-106), 10, 14)...), // long form
		}
		loc := [][]byte{ref.CS("hlineto", "return"), ref.CS("hlineto", 2, 2, "rlineto", "return"), ref.CS(4, 5, "return"), ref.CS(6, -107, "return")}
		progs[4] = append(ref.CS(1, 2, "rmoveto", 5), append(ref.Num28(-107), 10, 14)...)
		mk := func(i int, base rune) *mSrc {
			cs := [][]byte{{14}, progs[i], progs[(i+1)%len(progs)]}
			may := i == 2 || (i+1)%len(progs) == 2
			f := cffSrcFont(cs, ref.CFFInfo{Local: loc})
			f.Subs, f.Recs = cmap4(map[rune]uint16{base: 1, base + 1: 2})
			s := newMSrc(t, fmt.Sprintf("operands %d", i), f)
			if s != nil {
				s.nd = may
			}
			return s
		}
		for i := range progs {
			for j := range progs {
				a, b := mk(i, 'A'), mk(j, 'a')
				if a != nil && b != nil {
					a.merge(t, b, false)
				}
			}
			// the bias of the first font changes
			n := 1240
			var calls [2][]int
			calls[0] = []int{0, 107, n - 1}
			if a, b := mk(i, 'A'), c09counts(t, "B", [2]int{n, 0}, calls, 0x400); a != nil && b != nil {
				a.merge(t, b, false)
				b.merge(t, a, false)
			}
		}
	})

	// F: parts of a real font are merged again
	e.Case("real font", func(t *core.T) {
		b := resource("resources/EBGaramond12-Regular.otf")
		f, err := font.ParseSFNT(b, 0)
		if err != nil {
			t.Fail("parse", "%v", err)
			return
		}
		step := 150
		if t.E.Thorough {
			step = 50
		}
		part := func(lo, hi int) *mSrc {
			l := []uint16{0}
			for g := lo; g < hi; g++ {
				l = append(l, uint16(g))
			}
			s, err := f.Subset(l, font.SubsetOptions{Tables: font.KeepMinTables})
			if err != nil {
				t.Fail("subset fails", "glyphs %d to %d: %v", lo, hi, err)
				return nil
			}
			return newMSrcBytes(t, fmt.Sprintf("glyphs %d to %d", lo, hi), s.Write(), nil)
		}
		n := int(f.NumGlyphs())
		for lo := 1; lo+2*step < n; lo += 2 * step {
			x, y := part(lo, lo+step), part(lo+step, lo+2*step)
			if x == nil || y == nil {
				return
			}
			x.merge(t, y, false)
			y.merge(t, x, true)
		}
		// whole fonts
		w := newMSrcBytes(t, "EBGaramond", rawSFNT(b, "kern"), nil)
		if w != nil {
			w.noKern = true
			cs := c09counts(t, "B", [2]int{3, 2}, [2][]int{{0, 2}, {1}}, 0xF0000)
			if cs != nil && !strings.Contains(cs.desc, "?") {
				w.merge(t, cs, true)
				cs.merge(t, w, true)
			}
		}
	})
	e.Wait()
}

// rawSFNT rebuilds a font without the given tables.
func rawSFNT(b []byte, drop ...string) []byte {
	tb := rawTables(b)
	for _, d := range drop {
		delete(tb, d)
	}
	return ref.BuildSFNT(string(b[:4]), tb)
}
