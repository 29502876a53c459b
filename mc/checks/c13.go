package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{
		ID:  "C13",
		Run: c13,
		Rule: "every path operator with every operand count up to the stack limit, every sequence of path operators of bounded length, every hint/mask/width combination, operand encoding and subroutine nesting is " +
			"encoded as a CFF font; the drawn path, its placements and the bounds of every glyph are compared with an independent Type 2 interpreter",
		Assumptions: []string{
			"programs whose legality is disputed between implementations (stem hints behind the first moveto, rlinecurve without a line, rcurveline without a curve) are outside the space",
			"arithmetic, storage and seac operators are not supported by the library and are only required to give an error",
			"bounds must contain every control point and lie within one unit of the box of control points",
		},
	})
}

type cffProg struct {
	name  string
	cs    []byte
	valid bool // what the reference must say
}

// cffFont builds a CFF font with the programs as glyphs 1..n.
func cffFont(ps []cffProg, ci ref.CFFInfo) *ref.Font {
	f := &ref.Font{CFF: true, C: ci}
	f.Glyphs = append(f.Glyphs, ref.Glyph{CS: ref.CS(0, "hmoveto", "endchar")})
	for _, p := range ps {
		f.Glyphs = append(f.Glyphs, ref.Glyph{CS: p.cs})
	}
	f.Adv = make([]uint16, len(f.Glyphs))
	f.LSB = make([]int16, len(f.Glyphs))
	f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1})
	return f
}

// c13Font compares all glyphs. strict: programs the reference rejects must be errors.
func c13Font(t *core.T, desc string, b []byte, names func(int) string, want func(g int) (ref.Path, error), n int, strictErr bool) {
	s, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("rejected", "%s: valid font rejected: %v", desc, err)
		return
	}
	for g := 0; g < n; g++ {
		name := desc + ": " + names(g)
		p, werr := want(g)
		r := &sut.Rec{}
		err := s.GlyphPath(r, uint16(g), 0, 0, 0, 1, font.NoHinting)
		t.Trans(1)
		t.Trace()
		if werr != nil {
			if err == nil && strictErr {
				t.Fail("no error", "%s: invalid program (%v) is drawn as %s", name, werr, r.P)
			}
			continue
		}
		if err != nil {
			t.Fail("error", "%s: valid program gives %v", name, err)
			continue
		}
		ws := p.String()
		t.State(ws)
		if got := r.P.String(); got != ws {
			t.Fail("outline", "%s: drawn as %s, program draws %s", name, got, ws)
			continue
		}
		for _, pl := range placements[1:] {
			q := &sut.Rec{}
			if err := s.GlyphPath(q, uint16(g), 0, pl[0], pl[1], pl[2], font.NoHinting); err != nil {
				t.Fail("error", "%s: placed at %v: %v", name, pl, err)
			} else if w := place(p, pl[0], pl[1], pl[2]); q.P.String() != w.String() {
				t.Fail("placement", "%s: placed at %v: drawn as %s instead of %s", name, pl, q.P, w)
			}
		}
		t.Trans(len(placements))
		x0, y0, x1, y1 := s.GlyphBounds(uint16(g))
		if d := cffBoundsOK(p, [4]int16{x0, y0, x1, y1}); d != "" {
			t.Fail("bounds", "%s: %s (path %s)", name, d, ws)
		}
	}
}

// cffBoundsOK checks that the box contains the outline and that each side is at most one unit outside of the box of
// its control points, or of the origin.
func cffBoundsOK(p ref.Path, bb [4]int16) string {
	if len(p) == 0 {
		if bb != [4]int16{} {
			return fmt.Sprintf("bounds %v for an empty outline", bb)
		}
		return ""
	}
	c := [4]float64{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)} // control points
	d := [4]float64{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)} // end points
	add := func(b *[4]float64, x, y float64) {
		b[0], b[1] = math.Min(b[0], x), math.Min(b[1], y)
		b[2], b[3] = math.Max(b[2], x), math.Max(b[3], y)
	}
	for _, s := range p {
		n := map[byte]int{'M': 1, 'L': 1, 'Q': 2, 'C': 3}[s.Op]
		for k := 0; k < n; k++ {
			add(&c, s.A[2*k], s.A[2*k+1])
			if k+1 == n {
				add(&d, s.A[2*k], s.A[2*k+1])
			}
		}
	}
	for k := 0; k < 4; k++ {
		if c[k] < -32768 || c[k] > 32767 {
			return "" // cannot be represented
		}
	}
	v := [4]float64{float64(bb[0]), float64(bb[1]), float64(bb[2]), float64(bb[3])}
	if v[0] > d[0] || v[1] > d[1] || v[2] < d[2] || v[3] < d[3] {
		return fmt.Sprintf("bounds %v do not contain the outline's points %v", bb, d)
	}
	if v[0] <= c[0]-1 || v[1] <= c[1]-1 || v[2] >= c[2]+1 || v[3] >= c[3]+1 {
		return fmt.Sprintf("bounds %v are larger than the box %v of the control points", bb, c)
	}
	return ""
}

// c13Progs runs a list of programs in one font.
func c13Progs(t *core.T, desc string, ps []cffProg, ci ref.CFFInfo) {
	f := cffFont(ps, ci)
	for i, p := range ps {
		_, _, err := ref.ExecType2(p.cs, ci.Local, ci.Global)
		if (err == nil) != p.valid {
			t.Fail("harness", "%s: %s: reference says %v, expected validity %v (program %x)", desc, p.name, err, p.valid, p.cs)
			return
		}
		_ = i
	}
	c13Font(t, desc, f.SFNT(), func(g int) string {
		if g == 0 {
			return "glyph 0"
		}
		return fmt.Sprintf("%s (%x)", ps[g-1].name, ps[g-1].cs)
	}, func(g int) (ref.Path, error) {
		p, _, err := ref.ExecType2(f.Glyphs[g].CS, ci.Local, ci.Global)
		return p, err
	}, len(f.Glyphs), true)
}

// args returns n distinct operands of mixed sign.
func args(n, seed int) []int {
	out := make([]int, n)
	for i := range out {
		v := 3 + 7*i + 11*seed
		switch (i + seed) % 4 {
		case 1:
			v = -v
		case 2:
			v += 105
		case 3:
			v = -v - 107
		}
		out[i] = v
	}
	return out
}

var c13PathOps = []string{"rlineto", "hlineto", "vlineto", "rrcurveto", "rcurveline", "rlinecurve", "vvcurveto", "hhcurveto", "vhcurveto", "hvcurveto", "flex", "hflex", "hflex1", "flex1"}

// opLegal tells whether the operand count is legal; the second result tells whether the count is disputed.
func opLegal(op string, n int) (bool, bool) {
	switch op {
	case "rlineto":
		return n > 0 && n%2 == 0, false
	case "hlineto", "vlineto":
		return n > 0, false
	case "rrcurveto":
		return n > 0 && n%6 == 0, false
	case "rcurveline":
		return n >= 8 && n%6 == 2, n == 2
	case "rlinecurve":
		return n >= 8 && n%2 == 0, n == 6
	case "vvcurveto", "hhcurveto", "vhcurveto", "hvcurveto":
		return n >= 4 && n%4 <= 1, false
	case "flex":
		return n == 13, false
	case "hflex":
		return n == 7, false
	case "hflex1":
		return n == 9, false
	case "flex1":
		return n == 11, false
	}
	return false, false
}

func c13(e *core.Env) {
	// operand counts: every operator × every count 0..49 × width × moveto kind
	for _, op := range c13PathOps {
		op := op
		e.Case("counts/"+op, func(t *core.T) {
			var ps []cffProg
			for n := 0; n <= 49; n++ {
				ok, disputed := opLegal(op, n)
				if disputed {
					continue
				}
				for k, mv := range [][]any{{10, 20, "rmoveto"}, {500, 10, -20, "rmoveto"}, {-7, "hmoveto"}, {99, 5, "vmoveto"}} {
					it := append(append([]any{}, mv...), args(n, k), op, "endchar")
					ps = append(ps, cffProg{fmt.Sprintf("%d operands after moveto kind %d", n, k), ref.CS(it...), ok && n <= 48})
					it = append(append([]any{}, mv...), args(n, k), op, args(n, k+1), op, 1, 2, "rmoveto", args(n, k+2), op, "endchar")
					ps = append(ps, cffProg{fmt.Sprintf("thrice %d operands after moveto kind %d", n, k), ref.CS(it...), ok && n <= 48})
				}
			}
			c13Progs(t, op, ps, ref.CFFInfo{})
		})
	}
	// moveto operand counts, before and after the first
	e.Case("counts/moveto", func(t *core.T) {
		var ps []cffProg
		for op, want := range map[string]int{"rmoveto": 2, "hmoveto": 1, "vmoveto": 1} {
			for n := 0; n <= 6; n++ {
				ps = append(ps, cffProg{fmt.Sprintf("first %s with %d", op, n), ref.CS(args(n, 0), op, 3, 4, "rlineto", "endchar"), n == want || n == want+1})
				ps = append(ps, cffProg{fmt.Sprintf("later %s with %d", op, n), ref.CS(1, 2, "rmoveto", 3, 4, "rlineto", args(n, 0), op, 7, "hlineto", "endchar"), n == want})
				ps = append(ps, cffProg{fmt.Sprintf("second %s with %d", op, n), ref.CS(1, 2, "rmoveto", args(n, 0), op, 7, "hlineto", "endchar"), n == want})
			}
		}
		for n := 0; n <= 6; n++ {
			if n != 4 && n != 5 {
				ps = append(ps, cffProg{fmt.Sprintf("only endchar with %d", n), ref.CS(args(n, 0), "endchar"), n <= 1})
			}
			if n != 4 {
				ps = append(ps, cffProg{fmt.Sprintf("late endchar with %d", n), ref.CS(1, 2, "rmoveto", 5, 6, "rlineto", args(n, 0), "endchar"), n == 0})
			}
		}
		sortProgs(ps)
		c13Progs(t, "moveto", ps, ref.CFFInfo{})
	})
	// operator sequences
	type opv struct {
		op string
		n  int
	}
	alpha := []opv{{"rmoveto", 2}, {"hmoveto", 1}, {"vmoveto", 1}, {"rlineto", 2}, {"rlineto", 4}, {"hlineto", 1}, {"hlineto", 2}, {"hlineto", 3}, {"vlineto", 1}, {"vlineto", 2}, {"rrcurveto", 6}, {"rrcurveto", 12},
		{"rcurveline", 8}, {"rlinecurve", 8}, {"vvcurveto", 4}, {"vvcurveto", 5}, {"vvcurveto", 9}, {"hhcurveto", 4}, {"hhcurveto", 5}, {"vhcurveto", 4}, {"vhcurveto", 5}, {"vhcurveto", 8}, {"vhcurveto", 9},
		{"hvcurveto", 4}, {"hvcurveto", 5}, {"hvcurveto", 8}, {"hvcurveto", 13}, {"flex", 13}, {"hflex", 7}, {"hflex1", 9}, {"flex1", 11}}
	depth := 2
	if e.Thorough {
		depth = 3
	}
	for i0 := range alpha {
		i0 := i0
		e.Case(fmt.Sprintf("sequence/%s%d", alpha[i0].op, alpha[i0].n), func(t *core.T) {
			var rec func(prefix []any, names []string, d int, ps *[]cffProg)
			rec = func(prefix []any, names []string, d int, ps *[]cffProg) {
				*ps = append(*ps, cffProg{strings.Join(names, " "), ref.CS(append(append([]any{}, prefix...), "endchar")...), true})
				if d == 0 {
					return
				}
				for _, o := range alpha {
					p := append(append([]any{}, prefix...), args(o.n, d), o.op)
					rec(p, append(append([]string{}, names...), fmt.Sprint(o.op, o.n)), d-1, ps)
				}
			}
			var ps []cffProg
			o := alpha[i0]
			rec([]any{400, 30, -40, "rmoveto", args(o.n, 5), o.op}, []string{fmt.Sprint(o.op, o.n)}, depth, &ps)
			for len(ps) > 0 {
				k := min(len(ps), 4000)
				c13Progs(t, "sequence", ps[:k], ref.CFFInfo{})
				ps = ps[k:]
			}
		})
	}
	// operand encodings
	e.Case("numbers", func(t *core.T) {
		enc := map[string][]byte{}
		for _, v := range []int{-32768, -32767, -1132, -1131, -1130, -876, -875, -364, -363, -109, -108, -107, -106, -1, 0, 1, 106, 107, 108, 109, 363, 364, 875, 876, 1130, 1131, 1132, 32766, 32767} {
			enc[fmt.Sprint(v)] = ref.Num(v)
			enc[fmt.Sprint(v, " in 3 bytes")] = ref.Num28(v)
			enc[fmt.Sprint(v, " fixed")] = ref.Num255(int32(v) << 16)
		}
		for _, v := range []int32{1, -1, 32768, -32768, 65535, 0x7FFF0001, 0x00018000, -0x00018000, 0x0000FFFF} {
			enc[fmt.Sprintf("fixed %x", v)] = ref.Num255(v)
		}
		var ps []cffProg
		for n, b := range enc {
			ps = append(ps, cffProg{"hmoveto " + n, ref.CS(b, "hmoveto", 5, "vlineto", "endchar"), true})
			ps = append(ps, cffProg{"vlineto " + n, ref.CS(0, "hmoveto", b, "vlineto", 1, "hlineto", "endchar"), true})
			ps = append(ps, cffProg{"curve " + n, ref.CS(0, "hmoveto", 1, b, 3, 0, 5, 0, "rrcurveto", "endchar"), true})
			ps = append(ps, cffProg{"width " + n, ref.CS(b, 7, "hmoveto", 3, "vlineto", "endchar"), true})
			ps = append(ps, cffProg{"cut " + n, append(ref.CS(1, "hmoveto", 3, "vlineto"), b[:len(b)-1]...), false})
			ps = append(ps, cffProg{"no operator " + n, ref.CS(1, "hmoveto", 3, "vlineto", b), false})
		}
		sortProgs(ps)
		// the whole one- and two-byte range
		for v := -1131; v <= 1131; v++ {
			ps = append(ps, cffProg{fmt.Sprint("value ", v), ref.CS(0, "hmoveto", v, v+1, "rlineto", "endchar"), true})
		}
		c13Progs(t, "numbers", ps, ref.CFFInfo{})
	})
	// hints
	e.Case("hints", func(t *core.T) {
		var ps []cffProg
		stems := [][]any{nil, {1, 2, "hstem"}, {1, 2, 3, 4, "hstem"}, {1, 2, "hstemhm"}, {1, 2, "vstem"}, {1, 2, 3, 4, "vstemhm"}, {args(14, 0), "hstemhm"}, {args(16, 0), "hstemhm"}, {args(18, 0), "hstemhm"}, {args(46, 0), "hstemhm"}}
		stems2 := [][]any{nil, {5, 6, "vstem"}, {5, 6, "vstemhm"}, {args(16, 0), "vstemhm"}}
		count := func(s []any) int {
			n := 0
			for _, it := range s {
				switch v := it.(type) {
				case int:
					n++
				case []int:
					n += len(v)
				}
			}
			return n / 2
		}
		mask := func(op string, implicit, hints int) []any {
			var it []any
			if implicit > 0 {
				it = append(it, args(2*implicit, 3))
			}
			m := make([]byte, (hints+implicit+7)/8)
			for i := range m {
				m[i] = 0xE0 >> (i % 4) // bytes that look like operators and numbers
				if i == 0 {
					m[i] = 14 // looks like endchar
				}
			}
			return append(it, op, m)
		}
		for _, w := range []bool{false, true} {
			for _, a := range stems {
				for _, b := range stems2 {
					n := count(a) + count(b)
					for _, imp := range []int{0, 1, 2, 7, 8, 9, 23} {
						for _, seq := range [][]string{nil, {"hintmask"}, {"cntrmask"}, {"cntrmask", "hintmask"}, {"cntrmask", "cntrmask", "hintmask"}, {"hintmask", "cntrmask"}} {
							if seq == nil && imp > 0 || imp > 0 && n == 0 && false {
								continue
							}
							if n+imp > 96 {
								continue
							}
							var it []any
							it = append(it, a...)
							it = append(it, b...)
							tot := n
							for k, s := range seq {
								if k == 0 {
									it = append(it, mask(s, imp, tot)...)
									tot += imp
								} else {
									it = append(it, mask(s, 0, tot)...)
								}
							}
							it = append(it, 11, 12, "rmoveto", 20, 21, "rlineto")
							if seq != nil {
								it = append(it, mask("hintmask", 0, tot)...)
							}
							it = append(it, 22, 23, "rlineto", 5, "hmoveto", 3, "vlineto", "endchar")
							if w {
								it = append([]any{600}, it...)
								if len(a) == 0 && len(b) == 0 && seq == nil {
									it = append([]any{600, 11, 12}, it[3:]...)
								}
								if k := count(a); k > 23 || k == 0 && imp == 23 && len(b) == 0 {
									// 47 operands are still fine
									_ = k
								}
							}
							ps = append(ps, cffProg{fmt.Sprintf("width %v, stems %d+%d, implicit %d, masks %v", w, count(a), count(b), imp, seq), ref.CS(it...), true})
						}
					}
				}
			}
		}
		// odd counts behind the first stack-clearing operator, where no width may follow
		for _, op := range []string{"hstem", "vstem", "hstemhm", "vstemhm"} {
			ps = append(ps, cffProg{"second odd " + op, ref.CS(1, 2, "hstem", 3, 4, 5, op, 1, "hmoveto", 2, "vlineto", "endchar"), false})
			ps = append(ps, cffProg{"no operand " + op, ref.CS(op, 1, "hmoveto", 2, "vlineto", "endchar"), false})
			ps = append(ps, cffProg{"only width " + op, ref.CS(1, op, 1, "hmoveto", 2, "vlineto", "endchar"), false})
		}
		ps = append(ps, cffProg{"width twice", ref.CS(100, 1, 2, "hstem", 200, 1, "hmoveto", 2, "vlineto", "endchar"), false})
		ps = append(ps, cffProg{"width at second moveto", ref.CS(1, "hmoveto", 200, 1, "hmoveto", 2, "vlineto", "endchar"), false})
		ps = append(ps, cffProg{"odd implicit stems", ref.CS(1, 2, "hstemhm", 3, 4, 5, "hintmask", []byte{0}, 1, "hmoveto", 2, "vlineto", "endchar"), false})
		ps = append(ps, cffProg{"mask cut off", ref.CS(1, 2, "hstemhm", 3, 4, "hintmask"), false})
		ps = append(ps, cffProg{"long mask cut off", ref.CS(args(18, 0), "hstemhm", 3, 4, "hintmask", []byte{1}), false})
		c13Progs(t, "hints", ps, ref.CFFInfo{})
	})
	// flex1 and hflex direction choices
	e.Case("flex", func(t *core.T) {
		var ps []cffProg
		vals := []int{-5, 0, 5}
		for m := 0; m < 81; m++ {
			a, b, c, d := vals[m%3], vals[m/3%3], vals[m/9%3], vals[m/27%3]
			ps = append(ps, cffProg{fmt.Sprint("flex1 ", m), ref.CS(0, "hmoveto", a, b, c, d, 10, -10, a, b, 1, 2, 33, "flex1", 4, 5, "rlineto", "endchar"), true})
			ps = append(ps, cffProg{fmt.Sprint("hflex ", m), ref.CS(9, "vmoveto", a, b, c, d, 10, a, b, "hflex", 4, 5, "rlineto", "endchar"), true})
			ps = append(ps, cffProg{fmt.Sprint("hflex1 ", m), ref.CS(9, "vmoveto", a, b, c, d, 10, -10, a, b, c, "hflex1", 4, 5, "rlineto", "endchar"), true})
		}
		// equal and nearly equal extents, with fractions
		for _, p := range [][2]float64{{100, 100}, {100, -100}, {100, 99}, {99, 100}, {-100, 99}, {-99, -100}, {100.5, 100}, {100, 100.5}, {0, 0}} {
			ps = append(ps, cffProg{fmt.Sprint("flex1 extents ", p), ref.CS(0, "hmoveto", p[0], p[1], 0, 0, 0, 0, 0, 0, 0, 0, 33, "flex1", 4, 5, "rlineto", "endchar"), true})
		}
		c13Progs(t, "flex", ps, ref.CFFInfo{})
	})
	// subroutines
	c13Subrs(e)
	// dictionaries, charsets, offset sizes, CID
	c13Tables(e)
	// invalid programs
	e.Case("invalid", func(t *core.T) {
		var ps []cffProg
		add := func(n string, it ...any) { ps = append(ps, cffProg{n, ref.CS(it...), false}) }
		add("empty-ish", 5)
		add("no endchar", 1, "hmoveto", 2, "vlineto")
		add("return at top level", 1, "hmoveto", 2, "vlineto", "return")
		for _, op := range c13PathOps {
			for n := 1; n < 14; n++ {
				if ok, _ := opLegal(op, n); ok {
					add("before moveto: "+op, args(n, 0), op, "endchar")
					add("after hints only: "+op, 1, 2, "hstem", args(n, 0), op, "endchar")
				}
			}
		}
		for _, b := range []byte{0, 2, 9, 13, 15, 16, 17} {
			add(fmt.Sprintf("reserved operator %d", b), 1, "hmoveto", 2, "vlineto", []byte{b}, "endchar")
		}
		for _, b := range []byte{0, 1, 2, 6, 7, 8, 13, 16, 17, 19, 25, 31, 32, 33, 38, 255} {
			add(fmt.Sprintf("reserved operator 12 %d", b), 1, "hmoveto", 2, "vlineto", []byte{12, b}, "endchar")
		}
		add("escape cut off", 1, "hmoveto", 2, "vlineto", []byte{12})
		add("callsubr without subrs", 1, "hmoveto", 0, "callsubr", "endchar")
		add("callgsubr without subrs", 1, "hmoveto", 0, "callgsubr", "endchar")
		add("callsubr without operand", 1, "hmoveto", "callsubr", "endchar")
		add("callgsubr without operand", 1, "hmoveto", "callgsubr", "endchar")
		c13Progs(t, "invalid", ps, ref.CFFInfo{})
	})
	// real fonts
	for _, name := range []string{"resources/EBGaramond12-Regular.otf"} {
		for part := 0; part < 8; part++ {
			name, part := name, part
			e.Case(fmt.Sprintf("real/%s/%d", name, part), func(t *core.T) {
				b := resource(name)
				_, tabs, err := ref.ReadDir(b)
				if err != nil {
					t.Fail("harness", "%v", err)
					return
				}
				v, err := ref.ReadCFF(tabs["CFF "])
				if err != nil {
					t.Fail("harness", "%v", err)
					return
				}
				s, err := font.ParseSFNT(b, 0)
				if err != nil {
					t.Fail("rejected", "%s: %v", name, err)
					return
				}
				for g := part; g < len(v.CharStrings); g += 8 {
					p, _, err := v.Exec(g)
					if err != nil {
						t.Fail("harness", "glyph %d: %v", g, err)
						return
					}
					q, err := sut.Path(s, uint16(g))
					if err != nil || q.String() != p.String() {
						t.Fail("outline", "%s glyph %d: drawn as %s (%v), program draws %s", name, g, q, err, p)
					}
					x0, y0, x1, y1 := s.GlyphBounds(uint16(g))
					if d := cffBoundsOK(p, [4]int16{x0, y0, x1, y1}); d != "" {
						t.Fail("bounds", "%s glyph %d: %s", name, g, d)
					}
					t.Trans(2)
					t.Trace()
					t.State(p.String())
				}
			})
		}
	}
}

func sortProgs(ps []cffProg) {
	for i := 1; i < len(ps); i++ {
		for j := i; j > 0 && ps[j].name < ps[j-1].name; j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
}

func c13Subrs(e *core.Env) {
	// every assignment of call kinds to nesting levels
	maxDepth := 6
	for depth := 1; depth <= maxDepth; depth++ {
		depth := depth
		e.Case(fmt.Sprintf("subrs/nesting/%d", depth), func(t *core.T) {
			for m := 0; m < 1<<depth; m++ {
				// level k is a local subroutine if bit k is set
				var ci ref.CFFInfo
				body := make([][]byte, depth)
				for k := range body {
					isLocal := m>>k&1 == 1
					if isLocal {
						ci.Local = append(ci.Local, nil)
					} else {
						ci.Global = append(ci.Global, nil)
					}
					_ = isLocal
				}
				nl, ng := len(ci.Local), len(ci.Global)
				idx := make([]int, depth)
				l, g := 0, 0
				for k := 0; k < depth; k++ {
					if m>>k&1 == 1 {
						idx[k] = l
						l++
					} else {
						idx[k] = g
						g++
					}
				}
				call := func(k int) []any {
					if m>>k&1 == 1 {
						return []any{idx[k] - ref.Bias(nl), "callsubr"}
					}
					return []any{idx[k] - ref.Bias(ng), "callgsubr"}
				}
				for endIn := 0; endIn < 2; endIn++ {
					for k := depth - 1; k >= 0; k-- {
						it := []any{k + 1, 2*k - 7, "rlineto"}
						if k+1 < depth {
							it = append(it, call(k+1)...)
							it = append(it, -k-3, 1, "rlineto")
						}
						if endIn == 1 && k == depth-1 {
							it = append(it, "endchar")
						} else {
							it = append(it, "return")
						}
						body[k] = ref.CS(it...)
						if m>>k&1 == 1 {
							ci.Local[idx[k]] = body[k]
						} else {
							ci.Global[idx[k]] = body[k]
						}
					}
					ps := []cffProg{{"draw", ref.CS(append(append([]any{10, 20, "rmoveto"}, call(0)...), "endchar")...), true}}
					ps = append(ps, cffProg{"twice", ref.CS(append(append(append([]any{10, 20, "rmoveto"}, call(0)...), call(0)...), "endchar")...), true})
					c13Progs(t, fmt.Sprintf("nesting %0*b end in subr %d", depth, m, endIn), ps, ci)
				}
			}
		})
	}
	// nesting limit: 10 levels are legal
	e.Case("subrs/limit", func(t *core.T) {
		for _, kind := range []string{"callsubr", "callgsubr"} {
			for d := 1; d <= 14; d++ {
				if d == 11 {
					continue // the limit as counted by implementations differs by one
				}
				var subs [][]byte
				for k := 0; k < d; k++ {
					it := []any{k + 1, 1, "rlineto"}
					if k+1 < d {
						it = append(it, k+1-107, kind)
					}
					subs = append(subs, ref.CS(append(it, "return")...))
				}
				var ci ref.CFFInfo
				if kind == "callsubr" {
					ci.Local = subs
				} else {
					ci.Global = subs
				}
				c13Progs(t, fmt.Sprintf("%d levels of %s", d, kind), []cffProg{{"draw", ref.CS(10, 20, "rmoveto", -107, kind, "endchar"), d <= 10}}, ci)
			}
		}
		// recursion
		for _, kind := range []string{"callsubr", "callgsubr"} {
			var ci ref.CFFInfo
			subs := [][]byte{ref.CS(-107, kind, "return"), ref.CS(-105, kind, "return"), ref.CS(-106, kind, "return")}
			if kind == "callsubr" {
				ci.Local = subs
			} else {
				ci.Global = subs
			}
			c13Progs(t, "recursion by "+kind, []cffProg{{"self", ref.CS(10, 20, "rmoveto", -107, kind, "endchar"), false}, {"mutual", ref.CS(10, 20, "rmoveto", -106, kind, "endchar"), false}}, ci)
		}
	})
	// what a subroutine may contain: operands, width, hints, moveto, operator without its operands, mask
	e.Case("subrs/contents", func(t *core.T) {
		chunks := []struct {
			name string
			a    []any
		}{{"width", []any{500}}, {"stem", []any{1, 2, "hstemhm"}}, {"implicit stems", []any{3, 4}}, {"mask", []any{"hintmask", []byte{14}}}, {"moveto operands", []any{5, 6}}, {"moveto", []any{"rmoveto"}}, {"line operands", []any{7, 8, 9, 10}}, {"line", []any{"rlineto"}},
			{"curve", []any{1, 2, 3, 4, 5, 6, "rrcurveto"}}, {"closing", []any{-3, "hmoveto", 4, "vlineto"}}}
		n := len(chunks)
		// every contiguous grouping of the chunks into subroutines: bit k says a cut behind chunk k, kind alternates
		for m := 0; m < 1<<(n-1); m++ {
			var groups [][2]int
			st := 0
			for k := 0; k < n; k++ {
				if k == n-1 || m>>k&1 == 1 {
					groups = append(groups, [2]int{st, k + 1})
					st = k + 1
				}
			}
			for variant := 0; variant < 3; variant++ {
				var ci ref.CFFInfo
				var top []any
				type c struct {
					pos   int
					local bool
					i     int
				}
				var calls []c
				for gi, g := range groups {
					var it []any
					for k := g[0]; k < g[1]; k++ {
						it = append(it, chunks[k].a...)
					}
					if variant == 2 && gi%2 == 0 {
						top = append(top, it...)
						continue
					}
					local := variant == 0 || variant == 1 && gi%2 == 0
					b := ref.CS(append(it, "return")...)
					calls = append(calls, c{len(top), local, 0})
					if local {
						calls[len(calls)-1].i = len(ci.Local)
						ci.Local = append(ci.Local, b)
					} else {
						calls[len(calls)-1].i = len(ci.Global)
						ci.Global = append(ci.Global, b)
					}
					top = append(top, nil)
				}
				for _, cl := range calls {
					if cl.local {
						top[cl.pos] = ref.CS(cl.i-107, "callsubr")
					} else {
						top[cl.pos] = ref.CS(cl.i-107, "callgsubr")
					}
				}
				top = append(top, "endchar")
				c13Progs(t, fmt.Sprintf("grouping %b variant %d", m, variant), []cffProg{{"glyph", ref.CS(top...), true}}, ci)
			}
		}
	})
	// bias steps: every boundary count, first, last and outside indices, in every number encoding
	for _, kind := range []string{"callsubr", "callgsubr"} {
		for _, n := range []int{1, 2, 107, 214, 215, 1238, 1239, 1240, 1241, 2263, 33899, 33900, 33901, 65535} {
			kind, n := kind, n
			if n > 40000 && !e.Thorough {
				continue
			}
			e.Case(fmt.Sprintf("subrs/bias/%s/%d", kind, n), func(t *core.T) {
				subs := make([][]byte, n)
				for i := range subs {
					subs[i] = ref.CS(i%1000+1, i/1000, "rlineto", "return")
				}
				var ci ref.CFFInfo
				if kind == "callsubr" {
					ci.Local = subs
				} else {
					ci.Global = subs
				}
				var ps []cffProg
				bias := ref.Bias(n)
				seen := map[int]bool{}
				for _, i := range []int{-1, 0, 1, 106, 107, 108, 214, 215, 1130, 1131, 1132, 1238, 1239, 1240, 2262, 2263, 32767, 32768, 33899, 33900, n / 2, n - 2, n - 1, n, n + 1} {
					if seen[i] || i-bias < -32768 || i-bias > 32767 {
						continue
					}
					seen[i] = true
					for k, b := range [][]byte{ref.Num(i - bias), ref.Num28(i - bias), ref.Num255(int32(i-bias) << 16)} {
						ps = append(ps, cffProg{fmt.Sprintf("subr %d encoding %d", i, k), ref.CS(1, 2, "rmoveto", b, kind, 9, "hlineto", "endchar"), i >= 0 && i < n})
					}
				}
				c13Progs(t, fmt.Sprintf("%d subrs", n), ps, ci)
			})
		}
	}
	// nil, empty and odd sized INDEXes with every offset size, empty subroutines
	e.Case("subrs/offsize", func(t *core.T) {
		for sz := 1; sz <= 4; sz++ {
			for _, sizes := range [][]int{{1}, {250}, {251, 2}, {252}, {253}, {254}, {255}, {256}, {65530}, {65531}, {65532}, {65533}, {60000, 60000}} {
				var subs [][]byte
				for _, l := range sizes {
					var b []byte
					for len(b) < l-1 {
						if l-1-len(b) >= 3 {
							b = append(b, ref.CS(1-2*(len(b)/3%2), 2-4*(len(b)/3%2), "rlineto")...)
						} else if l-1-len(b) == 2 {
							b = append(b, ref.CS(1, "hlineto")...)
						} else {
							break
						}
					}
					subs = append(subs, append(b, ref.CS("return")...))
				}
				for k := 0; k < 3; k++ {
					ci := ref.CFFInfo{OffSize: sz}
					if k != 1 {
						ci.Local = subs
					}
					if k != 0 {
						ci.Global = subs
					}
					var ps []cffProg
					for i := range subs {
						if k != 1 {
							ps = append(ps, cffProg{fmt.Sprint("local ", i), ref.CS(1, "hmoveto", i-107, "callsubr", "endchar"), true})
						}
						if k != 0 {
							ps = append(ps, cffProg{fmt.Sprint("global ", i), ref.CS(1, "hmoveto", i-107, "callgsubr", "endchar"), true})
						}
					}
					c13Progs(t, fmt.Sprintf("offset size %d, subrs %v, kind %d", sz, sizes, k), ps, ci)
				}
			}
		}
	})
}

func c13Tables(e *core.Env) {
	// charstring sizes around the INDEX offset size steps
	e.Case("tables/charstrings", func(t *core.T) {
		for _, l := range []int{100, 200, 230, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 65000, 65535} {
			for sz := 1; sz <= 4; sz++ {
				b := ref.CS(1, "hmoveto")
				for len(b) < l-1 {
					if l-1-len(b) >= 3 {
						b = append(b, ref.CS(5-10*(len(b)/3%2), 7-14*(len(b)/3%2), "rlineto")...)
					} else {
						b = append(b, ref.CS(1, "hlineto")...)
					}
				}
				b = append(b[:len(b):len(b)], 14)
				c13Progs(t, fmt.Sprintf("charstring of %d bytes, offset size %d", len(b), sz), []cffProg{{"long", b, len(b) <= 65535}}, ref.CFFInfo{OffSize: sz})
			}
		}
		// many charstrings crossing 2^16 and 2^24 bytes of data in total
		for _, n := range []int{255, 256, 1000, 66000 / 32, 3000} {
			var ps []cffProg
			for i := 0; i < n; i++ {
				ps = append(ps, cffProg{fmt.Sprint("glyph ", i), ref.CS(i, "hmoveto", i+1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, "rlineto", "endchar"), true})
			}
			c13Progs(t, fmt.Sprintf("%d glyphs", n), ps, ref.CFFInfo{})
		}
	})
	if e.Thorough {
		e.Case("tables/charstrings16M", func(t *core.T) {
			var ps []cffProg
			for i := 0; i < 260; i++ {
				b := ref.CS(i, "hmoveto")
				for len(b) < 65300 {
					b = append(b, ref.CS(args(23, 0), 0, "rlineto", neg(args(23, 0)), 0, "rlineto")...)
				}
				ps = append(ps, cffProg{fmt.Sprint("big ", i), append(b[:len(b):len(b)], 14), true})
			}
			c13Progs(t, "17 MB of charstrings", ps, ref.CFFInfo{})
		})
	}
	// charset formats and names do not influence outlines; names are those of the charset
	e.Case("tables/charset", func(t *core.T) {
		for _, n := range []int{1, 2, 3, 100, 228, 229, 256, 257, 258, 300, 520} {
			for _, cf := range []int{0, 1, 2, 255} {
				if cf == 255 && n > 229 {
					continue
				}
				for kind := 0; kind < 3; kind++ {
					names := make([]string, n)
					names[0] = ".notdef"
					for i := 1; i < n; i++ {
						switch {
						case cf == 255 || kind == 0 && i < 391:
							names[i] = ref.CFFStd[i]
						case kind == 1 && i%5 == 0 && i/5 < 391:
							names[i] = ref.CFFStd[i/5]
						default:
							names[i] = fmt.Sprintf("custom.%d", i)
						}
					}
					ci := ref.CFFInfo{CharsetFormat: cf, Charset: names}
					var ps []cffProg
					for i := 1; i < n; i++ {
						ps = append(ps, cffProg{names[i], ref.CS(i, "hmoveto", 4, "vlineto", "endchar"), true})
					}
					f := cffFont(ps, ci)
					desc := fmt.Sprintf("%d glyphs, charset format %d, names %d", n, cf, kind)
					s, err := font.ParseSFNT(f.SFNT(), 0)
					if err != nil {
						t.Fail("rejected", "%s: %v", desc, err)
						continue
					}
					for g := 0; g < n; g++ {
						if got := s.GlyphName(uint16(g)); got != names[g] {
							t.Fail("name", "%s: glyph %d is named %q instead of %q", desc, g, got, names[g])
							break
						}
						p, err := sut.Path(s, uint16(g))
						w, _, _ := ref.ExecType2(f.Glyphs[g].CS, nil, nil)
						if err != nil || p.String() != w.String() {
							t.Fail("outline", "%s: glyph %d: %s (%v) instead of %s", desc, g, p, err, w)
							break
						}
						t.Trans(2)
					}
					t.Trace()
					t.State(desc)
				}
			}
		}
	})
	// CID-keyed fonts: every assignment of glyphs to font dictionaries
	e.Case("tables/cid", func(t *core.T) {
		for _, fds := range []int{1, 2, 3} {
			n := 5
			tot := 1
			for i := 0; i < n; i++ {
				tot *= fds
			}
			for m := 0; m < tot; m++ {
				for _, format := range []int{0, 3} {
					for nilKind := 0; nilKind < 3; nilKind++ {
						sel := make([]byte, n)
						x := m
						for i := range sel {
							sel[i] = byte(x % fds)
							x /= fds
						}
						ci := ref.CFFInfo{CID: true, FDSelect: sel, FDFormat: format}
						for k := 0; k < fds; k++ {
							loc := [][]byte{ref.CS(k+1, 100*k, "rlineto", "return"), ref.CS(-5, -106+1-1, "callgsubr", "return")}
							loc[1] = ref.CS(k+50, "hlineto", -107, "callgsubr", "return")
							if nilKind == 1 && k == 0 || nilKind == 2 && k == fds-1 {
								loc = nil
							}
							ci.FDLocal = append(ci.FDLocal, loc)
						}
						ci.Global = [][]byte{ref.CS(9, 9, "rlineto", "return")}
						var ps []cffProg
						for i := 1; i < n; i++ {
							ps = append(ps, cffProg{fmt.Sprint("glyph ", i), ref.CS(i, "hmoveto", -107, "callsubr", -106, "callsubr", "endchar"), true})
						}
						f := cffFont(ps, ci)
						desc := fmt.Sprintf("CID %d dictionaries %v format %d without subrs %d", fds, sel, format, nilKind)
						c13Font(t, desc, f.SFNT(), func(g int) string { return fmt.Sprint("glyph ", g) }, func(g int) (ref.Path, error) {
							p, _, err := ref.ExecType2(f.Glyphs[g].CS, ci.FDLocal[sel[g]], ci.Global)
							return p, err
						}, n, true)
					}
				}
			}
		}
	})
	// private DICT widths, font matrix
	e.Case("tables/dict", func(t *core.T) {
		for m := 0; m < 16; m++ {
			ci := ref.CFFInfo{FontMatrix: m&1 != 0}
			if m&2 != 0 {
				ci.DefaultW = 555
			}
			if m&4 != 0 {
				ci.NominalW = -300
			}
			if m&8 != 0 {
				ci.FullName = "Some Full Name"
				ci.TopExtra = append(append([]byte{}, ref.DictReal("-12.5")...), 12, 2)
			}
			c13Progs(t, fmt.Sprintf("dict %d", m), []cffProg{{"a", ref.CS(100, 2, "hmoveto", 3, "vlineto", "endchar"), true}, {"b", ref.CS(2, "hmoveto", 3, "vlineto", "endchar"), true}}, ci)
		}
	})
	// bounds: every position of a box relative to the origin, fractions
	e.Case("bounds", func(t *core.T) {
		vals := []float64{-300, -100.5, -0.5, 0, 0.25, 100, 200.75}
		var ps []cffProg
		for _, x0 := range vals {
			for _, y0 := range vals {
				for _, x1 := range vals {
					for _, y1 := range vals {
						ps = append(ps, cffProg{fmt.Sprint("line ", x0, y0, x1, y1), ref.CS(x0, y0, "rmoveto", x1-x0, y1-y0, "rlineto", "endchar"), true})
					}
				}
				ps = append(ps, cffProg{fmt.Sprint("curve ", x0, y0), ref.CS(x0, y0, "rmoveto", 10, 30, 20, 0, 10, -30, "rrcurveto", "endchar"), true})
				ps = append(ps, cffProg{fmt.Sprint("overshoot ", x0, y0), ref.CS(x0, y0, "rmoveto", -40, 90, 0, 0, 80, -90, "rrcurveto", "endchar"), true})
			}
		}
		c13Progs(t, "bounds", ps, ref.CFFInfo{})
	})
}

func neg(v []int) []int {
	out := make([]int, len(v))
	for i := range v {
		out[i] = -v[i]
	}
	return out
}
