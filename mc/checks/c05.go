package checks

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{ID: "C05", Run: c05, CaseLimit: 10 * time.Minute,
		Rule: "for every explored subroutine structure and glyph list, position i of the subset draws the outline of the i-th requested glyph with its advance, bearing, bounds and name, and executes the same operators (hints and width included) when subroutines are inlined; in memory, re-parsed, and by the reference reader on the written bytes",
		Assumptions: []string{
			"glyph 0 may be kept or emptied; the glyph at position 0 of a CFF font is always named .notdef",
			"fonts with several font dictionaries, and programs in which a subroutine number is not pushed directly in front of the call, may be refused"}})
}

type cffSource struct {
	desc  string
	f     *font.SFNT
	v     *ref.CFFView
	api   []sut.Glyph
	trace []string
	path  []string
	may   []bool // may be refused
}

func newCFFSource(t *core.T, desc string, b []byte) *cffSource {
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("parse", "%s: %v", desc, err)
		return nil
	}
	v, err := ref.ReadCFF(rawTables(b)["CFF "])
	if err != nil {
		panic(fmt.Sprintf("%s: %v", desc, err))
	}
	s := &cffSource{desc: desc, f: f, v: v}
	n := len(v.CharStrings)
	s.may = make([]bool, n)
	for i := 0; i < n; i++ {
		g := ttGlyph(f, uint16(i))
		if !v.CID {
			g.Name = f.GlyphName(uint16(i))
		}
		s.api = append(s.api, g)
		p, tr, err := v.Exec(i)
		if err != nil {
			panic(fmt.Sprintf("%s: glyph %d: %v", desc, i, err))
		}
		s.path = append(s.path, p.String())
		s.trace = append(s.trace, strings.Join(tr, " "))
	}
	return s
}

func (s *cffSource) check(t *core.T, list []uint16, tables []string, state bool) {
	t.Trans(1)
	desc := fmt.Sprintf("%s: subset %v %v", s.desc, shortIDs(list), tables)
	bad, may := false, len(s.v.Local) > 1
	for _, g := range list {
		if int(g) >= len(s.api) {
			bad = true
		} else {
			may = may || s.may[g]
		}
	}
	sub, err := s.f.Subset(append([]uint16{}, list...), font.SubsetOptions{Tables: tables})
	if bad {
		if err == nil {
			t.Fail("no error for a missing glyph", "%s", desc)
		}
		return
	} else if err != nil {
		if !may {
			t.Fail("subset fails", "%s: %v", desc, err)
		}
		return
	}
	if int(sub.NumGlyphs()) != len(list) {
		t.Fail("glyph count", "%s: %d glyphs, expected %d", desc, sub.NumGlyphs(), len(list))
		return
	}
	b := sub.Write()
	pdf := len(tables) > 1 || tables[0] == "pdf"
	fs := []*font.SFNT{sub}
	if !pdf {
		re, err := font.ParseSFNT(b, 0)
		if err != nil {
			t.Fail("written subset does not parse", "%s: %v", desc, err)
			return
		}
		fs = append(fs, re)
	}
	_, tb, err := ref.ReadDir(b)
	var rf *ref.RFont
	if err == nil {
		tg := map[string][]byte{}
		for _, k := range []string{"head", "maxp", "hhea", "hmtx", "CFF "} {
			tg[k] = tb[k]
		}
		rf, err = ref.ReadTables("OTTO", tg)
	}
	if err != nil {
		t.Fail("written subset is malformed", "%s: %v", desc, err)
		return
	}
	for w, f := range fs {
		w := []string{"memory", "re-parsed"}[w]
		for i, g := range list {
			t.Trans(1)
			got, want := ttGlyph(f, uint16(i)), s.api[g]
			if !s.v.CID {
				got.Name = f.GlyphName(uint16(i))
			}
			if i == 0 && !s.v.CID {
				want.Name = ".notdef"
			}
			if g == 0 && got.Path == "" && got.Err == "" {
				got.Path, got.BBox, got.Err = want.Path, want.BBox, want.Err
			}
			if c, d := sut.DiffGlyph(&want, &got); c != "" {
				t.Fail(c, "%s (%s): position %d, glyph %d: %s", desc, w, i, g, d)
				return
			}
		}
	}
	for i, g := range list {
		p, tr, err := rf.C.Exec(i)
		if err != nil {
			t.Fail("invalid charstring", "%s: position %d, glyph %d: %v", desc, i, g, err)
			return
		}
		if g == 0 && len(p) == 0 {
			continue
		}
		if p.String() != s.path[g] {
			t.Fail("outline", "%s (reference): position %d, glyph %d: %s, expected %s", desc, i, g, p, s.path[g])
			return
		} else if x := strings.Join(tr, " "); x != s.trace[g] {
			t.Fail("operators", "%s: position %d, glyph %d executes %.300s, expected %.300s", desc, i, g, x, s.trace[g])
			return
		}
		if !s.v.CID && i > 0 && rf.C.Charset[i] != s.v.Charset[g] {
			t.Fail("stored name", "%s: position %d, glyph %d: %q, expected %q", desc, i, g, rf.C.Charset[i], s.v.Charset[g])
			return
		}
	}
	if len(s.v.Private) == 1 {
		for k, v := range s.v.Private[0] {
			if k == 19 {
				continue
			}
			w := rf.C.Private[0][k]
			same := len(v) == len(w)
			for j := range v {
				same = same && math.Abs(v[j]-w[j]) <= 1e-6*math.Max(1, math.Abs(v[j]))
			}
			if !same && !defaultPriv(k, v, w) {
				t.Fail("private dictionary", "%s: operator %d is %v, expected %v", desc, k, w, v)
				return
			}
		}
	}
	t.Trace()
	if state {
		t.StateB(tb["CFF "])
	}
}

// defaultPriv tells whether an absent entry has the given value by default.
func defaultPriv(k int, v, w []float64) bool {
	if len(w) != 0 || len(v) != 1 {
		return false
	}
	d := map[int]float64{256 + 9: 0.039625, 256 + 10: 7, 256 + 11: 1, 256 + 14: 0, 256 + 17: 0, 256 + 18: 0.06, 256 + 19: 0, 20: 0, 21: 0}
	x, ok := d[k]
	return ok && math.Abs(x-v[0]) < 1e-9
}

func cffSrcFont(cs [][]byte, ci ref.CFFInfo) *ref.Font {
	f := &ref.Font{CFF: true, UPM: 1000, C: ci, PostVer: 3}
	for i, c := range cs {
		f.Glyphs = append(f.Glyphs, ref.Glyph{CS: c})
		f.Adv = append(f.Adv, uint16(400+7*i))
		f.LSB = append(f.LSB, int16(2*i-3))
	}
	m := map[rune]uint16{}
	for i := 1; i < len(cs) && i < 100; i++ {
		m[rune('@'+i)] = uint16(i)
	}
	if len(m) == 0 {
		m['A'] = 0
	}
	f.Subs, f.Recs = cmap4(m)
	return f
}

// subrSet is a set of subroutines in calling order: kinds[i] tells whether subroutine i is local.
type subrSet struct {
	local []bool
	num   []int // number within its kind
	n     [2]int
}

func newSubrSet(local []bool, perm []int) *subrSet {
	s := &subrSet{local: local, num: make([]int, len(local))}
	for _, i := range perm {
		k := 0
		if local[i] {
			k = 1
		}
		s.num[i] = s.n[k]
		s.n[k]++
	}
	return s
}

// call returns the items that call subroutine i.
func (s *subrSet) call(i int) []any {
	if s.local[i] {
		return []any{s.num[i] - ref.Bias(s.n[1]), "callsubr"}
	}
	return []any{s.num[i] - ref.Bias(s.n[0]), "callgsubr"}
}

func (s *subrSet) info(bodies [][]byte) ref.CFFInfo {
	ci := ref.CFFInfo{Global: make([][]byte, s.n[0]), Local: make([][]byte, s.n[1])}
	for i, b := range bodies {
		if s.local[i] {
			ci.Local[s.num[i]] = b
		} else {
			ci.Global[s.num[i]] = b
		}
	}
	return ci
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}

func c05(e *core.Env) {
	sets := [][]string{font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables}
	// A: all call graphs on few subroutines
	n := 3
	if e.Thorough {
		n = 4
	}
	for m := 0; m < 1<<n; m++ {
		local := make([]bool, n)
		for i := range local {
			local[i] = m>>i&1 == 1
		}
		for pi, perm := range perms(n) {
			if n == 4 && pi%5 != 0 {
				continue
			}
			ss := newSubrSet(local, perm)
			e.Case(fmt.Sprintf("graphs/%0*b/%d", n, m, pi), func(t *core.T) {
				bodies := make([][]byte, n)
				var rec func(i int)
				rec = func(i int) {
					if i < 0 {
						c05graph(t, fmt.Sprintf("graph %0*b %v %x", n, m, perm, bodies), ss, bodies, sets, e.Thorough)
						return
					}
					draw := []any{i + 1, 10 - 3*i, "rlineto"}
					var alts [][]any
					alts = append(alts, append(append([]any{}, draw...), "return"))
					if i == n-1 {
						alts = append(alts, append(append([]any{}, draw...), "endchar"), []any{"return"})
					}
					for j := i + 1; j < n; j++ {
						alts = append(alts, append(append([]any{}, ss.call(j)...), "return"))
						alts = append(alts, append(append(append([]any{}, draw...), ss.call(j)...), append(draw, "return")...))
						for k := j; k < n; k++ {
							alts = append(alts, append(append(append([]any{}, ss.call(j)...), ss.call(k)...), "return"))
						}
					}
					for _, a := range alts {
						bodies[i] = ref.CS(a...)
						rec(i - 1)
					}
				}
				rec(n - 1)
			})
		}
	}

	// B: numbers of subroutines around the changes of the bias and of the number encodings
	counts := []int{1, 2, 3, 106, 107, 108, 109, 214, 215, 216, 217, 1130, 1131, 1238, 1239, 1240, 1241, 1242, 1347, 1348, 2262, 2263, 2264, 33898, 33899, 33900, 33901, 65535}
	if e.Thorough {
		counts = append(counts, 105, 110, 1000, 1131+108, 1132, 1133, 2261, 2265, 5000, 32767, 32768, 32769, 33897, 33902, 40000, 65534)
	}
	for _, kind := range []bool{false, true} {
		for _, c := range counts {
			e.Case(fmt.Sprintf("counts/%v/%d", kind, c), func(t *core.T) { c05count(t, kind, c, counts, sets, e.Thorough) })
		}
	}

	// C: encodings of the subroutine number and of its surroundings
	e.Case("encodings", func(t *core.T) { c05enc(t, sets) })

	// D: dictionaries, charsets, widths
	c05tables(e, sets)

	// E: sizes
	for _, size := range []int{254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537} {
		e.Case(fmt.Sprintf("size/%d", size), func(t *core.T) {
			for d := -3; d <= 3; d++ {
				for _, withSub := range []bool{false, true} {
					total := size + d
					// the first glyph is 0E in the subset, glyph 1 fills up
					var cs [][]byte
					cs = append(cs, ref.CS("endchar"))
					left := total - 1
					for left > 0 {
						k := min(left, 30000)
						if left-k > 0 && left-k < 20 {
							k -= 20
						}
						cs = append(cs, padCS(k))
						left -= k
					}
					ci := ref.CFFInfo{}
					if withSub {
						ci.Local = [][]byte{ref.CS("return"), ref.CS(9, 9, "rlineto", "return")}
						cs = append(cs, ref.CS(3, 3, "rmoveto", -106, "callsubr", "endchar"))
					}
					src := newCFFSource(t, fmt.Sprintf("size %d %v", total, withSub), cffSrcFont(cs, ci).SFNT())
					if src == nil {
						continue
					}
					var all []uint16
					for i := range cs {
						all = append(all, uint16(i))
					}
					for k := range sets {
						src.check(t, all, sets[k], true)
						src.check(t, all[:len(all)-1], sets[k], true)
					}
				}
			}
		})
	}
	if e.Thorough {
		e.Case("size/16M", func(t *core.T) {
			var cs [][]byte
			cs = append(cs, ref.CS("endchar"))
			for i := 0; i < 262; i++ {
				it := ref.CS(i, 20, "rmoveto")
				for len(it) < 65000 {
					it = append(it, ref.CS(len(it)%100, i%100, "rlineto")...)
				}
				cs = append(cs, append(it, 14))
			}
			src := newCFFSource(t, "size 16M", cffSrcFont(cs, ref.CFFInfo{}).SFNT())
			if src == nil {
				return
			}
			for _, k := range []int{256, 257, 258, 259, 260, 263} {
				var all []uint16
				for i := 0; i < k; i++ {
					all = append(all, uint16(i))
				}
				src.check(t, all, font.KeepMinTables, true)
			}
		})
	}

	// F: missing and repeated glyphs
	e.Case("ids", func(t *core.T) {
		for _, n := range []int{1, 2, 3, 300} {
			var cs [][]byte
			for i := 0; i < n; i++ {
				cs = append(cs, ref.CS(i%100, 1, "rmoveto", 5, 6, "rlineto", "endchar"))
			}
			src := newCFFSource(t, fmt.Sprintf("ids %d", n), cffSrcFont(cs, ref.CFFInfo{}).SFNT())
			if src == nil {
				continue
			}
			for k := range sets {
				for _, id := range []int{0, n - 1, n, n + 1, 255, 256, 32768, 65535} {
					for _, pre := range [][]uint16{nil, {0}, {uint16(n - 1)}} {
						for _, post := range [][]uint16{nil, {0}, {uint16(n - 1)}} {
							src.check(t, append(append(append([]uint16{}, pre...), uint16(id)), post...), sets[k], true)
						}
					}
				}
			}
		}
	})

	// G: the real font
	b := resource("resources/EBGaramond12-Regular.otf")
	for lo := 0; lo < 16; lo++ {
		e.Case(fmt.Sprintf("real/%d", lo), func(t *core.T) {
			src := newCFFSource(t, "EBGaramond", b)
			if src == nil {
				return
			}
			step := 100
			if e.Thorough {
				step = 10
			}
			// the subset scans all subroutines only of the kept glyphs
			for g := lo; g < len(src.api); g += 16 {
				if g/16%step == 0 {
					src.check(t, []uint16{0, uint16(g)}, font.KeepPDFTables, true)
				}
			}
			var win []uint16
			for g := len(src.api) - 1 - lo; g > 0; g -= 16 {
				win = append(win, uint16(g))
			}
			src.check(t, win, font.KeepMinTables, true)
			if lo == 0 {
				var all []uint16
				for g := range src.api {
					all = append(all, uint16(g))
				}
				src.check(t, all, font.KeepMinTables, true)
			}
		})
	}
	e.Wait()
}

// padCS makes a drawing program of exactly k bytes (4 < k).
func padCS(k int) []byte {
	out := ref.CS(10, 20, "rmoveto")
	for len(out)+1 < k {
		left := k - 1 - len(out)
		switch {
		case left >= 8 || left == 3:
			out = append(out, ref.CS(len(out)%100, 5, "rlineto")...)
		case left == 2:
			out = append(out, ref.CS(7, "hlineto")...)
		case left == 1:
			// replace a one byte operand by a two byte one
			out[0] = 247
			out = append(out[:1], append([]byte{3}, out[1:]...)...)
		default:
			out = append(out, ref.CS(7, "hlineto")...)
		}
	}
	return append(out, 14)
}

func c05graph(t *core.T, desc string, ss *subrSet, bodies [][]byte, sets [][]string, thorough bool) {
	n := len(bodies)
	bs := make([][]byte, n)
	copy(bs, bodies)
	mk := func(calls ...int) []byte {
		it := []any{50, 60, "rmoveto", 5, 5, "rlineto"}
		for _, c := range calls {
			it = append(it, ss.call(c)...)
		}
		return ref.CS(append(it, "endchar")...)
	}
	cs := [][]byte{ref.CS(1, 1, "rmoveto", 2, 2, "rlineto", "endchar"), mk()}
	for i := 0; i < n; i++ {
		cs = append(cs, mk(i))
	}
	cs = append(cs, mk(n-1, 0), mk(1, n-1, 1))
	src := newCFFSource(t, desc, cffSrcFont(cs, ss.info(bs)).SFNT())
	if src == nil {
		return
	}
	k := 0
	for g := 1; g < len(cs); g++ {
		src.check(t, []uint16{0, uint16(g)}, sets[k%3], true)
		k++
		for h := g + 1; h < len(cs); h++ {
			src.check(t, []uint16{uint16(h), uint16(g)}, sets[k%3], true)
			src.check(t, []uint16{0, uint16(g), uint16(h)}, sets[k%3], true)
			k++
		}
	}
	var all, rev []uint16
	for g := range cs {
		all, rev = append(all, uint16(g)), append(rev, uint16(len(cs)-1-g))
	}
	src.check(t, all, sets[k%3], true)
	src.check(t, rev, sets[k%3], true)
}

// c05count: c subroutines of one kind (and two of the other), of which the first, last, or every second
// k are used.
func c05count(t *core.T, local bool, c int, counts []int, sets [][]string, thorough bool) {
	subrs := make([][]byte, c)
	for i := range subrs {
		subrs[i] = ref.CS(i%90+1, i/90%100, "rlineto", "return")
	}
	other := [][]byte{ref.CS(3, 4, "rlineto", "return"), ref.CS(5, "hlineto", "return")}
	ci := ref.CFFInfo{Global: subrs, Local: other}
	o, oo := "callgsubr", "callsubr"
	if local {
		ci.Global, ci.Local = other, subrs
		o, oo = oo, o
	}
	bias := ref.Bias(c)
	const per = 800
	cs := [][]byte{ref.CS("endchar")}
	for lo := 0; lo < c; lo += per {
		it := []any{1, 2, "rmoveto"}
		for i := lo; i < min(c, lo+per); i++ {
			it = append(it, i-bias, o)
		}
		it = append(it, -106, oo)
		cs = append(cs, ref.CS(append(it, "endchar")...))
	}
	single := map[int]int{}
	addSingle := func(i int) {
		if i < 0 || i >= c {
			return
		}
		if _, ok := single[i]; ok {
			return
		}
		single[i] = len(cs)
		cs = append(cs, ref.CS(7, 8, "rmoveto", i-bias, o, i-bias, o, "endchar"))
	}
	for _, k := range counts {
		for d := -2; d <= 1; d++ {
			addSingle(k + d)
		}
	}
	// prefix glyphs: the first k subroutines in pieces
	ks := []int{}
	for _, k := range counts {
		if k <= c {
			ks = append(ks, k)
		}
	}
	prefix := map[int][]uint16{}
	suffix := map[int][]uint16{}
	for _, k := range ks {
		var pl, sl []uint16
		full := k / per
		for i := 0; i < full; i++ {
			pl = append(pl, uint16(1+i))
		}
		if rest := k % per; rest > 0 {
			it := []any{1, 2, "rmoveto"}
			for i := full * per; i < k; i++ {
				it = append(it, i-bias, o)
			}
			pl = append(pl, uint16(len(cs)))
			cs = append(cs, ref.CS(append(it, "endchar")...))
		}
		for hi := c; hi > c-k; {
			lo := max(c-k, hi-per)
			it := []any{1, 2, "rmoveto"}
			for i := lo; i < hi; i++ {
				it = append(it, i-bias, o)
			}
			sl = append(sl, uint16(len(cs)))
			cs = append(cs, ref.CS(append(it, "endchar")...))
			hi = lo
			if len(sl) > 20 && k != c {
				break
			}
		}
		prefix[k], suffix[k] = pl, sl
	}
	src := newCFFSource(t, fmt.Sprintf("count %d local %v", c, local), cffSrcFont(cs, ci).SFNT())
	if src == nil {
		return
	}
	for i, g := range single {
		src.check(t, []uint16{0, uint16(g)}, sets[i%3], true)
	}
	for x, k := range ks {
		for j, l := range [][]uint16{prefix[k], suffix[k]} {
			src.check(t, append([]uint16{0}, l...), sets[(x+j)%3], true)
			if g, ok := single[k-1]; ok && len(l) < 45 {
				src.check(t, append(append([]uint16{0}, uint16(g)), l...), sets[(x+j+1)%3], true)
			}
		}
	}
}

func c05enc(t *core.T, sets [][]string) {
	num := func(v, form int) []byte {
		switch form {
		case 0:
			return ref.Num(v)
		case 1:
			return ref.Num28(v)
		case 2:
			return ref.Num255(int32(v) << 16)
		}
		return ref.Num255(int32(v)<<16 + 0x4000)
	}
	for _, local := range []bool{false, true} {
		for _, c := range []int{3, 150, 300, 1300} {
			o := "callgsubr"
			if local {
				o = "callsubr"
			}
			b := ref.Bias(c)
			mk := func(form int) ref.CFFInfo {
				subrs := make([][]byte, c)
				for i := range subrs {
					subrs[i] = ref.CS(i%90, 3, "rlineto", "return")
				}
				// nested call with a number in the given form, operands pending in front, operators behind
				subrs[0] = ref.CS(1, 2, "rlineto", 30, 31, num(1-b, form), o, 8, "hlineto", "return")
				subrs[1] = ref.CS("rlineto", 4, num(c-1-b, form), o, "return")
				subrs[c-1] = ref.CS("vlineto", "return")
				if c > 3 {
					subrs[2] = ref.CS(9, "hlineto", 6, num(c-1-b, form), o, 4, num(c-1-b, form), o, "endchar")
					subrs[c/2] = ref.CS(num(2-b, form), o)
					subrs[c/2+1] = ref.CS(c/2-b, "return") // pushes the number of a subroutine
				}
				ci := ref.CFFInfo{Global: subrs, Local: [][]byte{ref.CS("return")}}
				if local {
					ci.Global, ci.Local = ci.Local, ci.Global
				}
				return ci
			}
			for form := 0; form < 3; form++ {
				ci := mk(form)
				var cs [][]byte
				cs = append(cs, ref.CS("endchar"))
				add := func(it ...any) { cs = append(cs, ref.CS(it...)) }
				for f := 0; f < 4; f++ {
					n := func(i int) []byte { return num(i-b, f) }
					add(10, 10, "rmoveto", n(0), o, "endchar")
					add(10, 10, "rmoveto", 1, 2, "rlineto", n(0), o, 3, 4, "rlineto", n(0), o, "endchar")
					add(10, 10, "rmoveto", 77, 78, n(1), o, "endchar")
					add(10, 10, "rmoveto", 5, n(c-1), o, 6, n(c-1), o, "endchar")
					// width, hints, masks in front of the call
					add(-20, 1, 2, "hstemhm", 3, 4, "hintmask", []byte{0xC0}, 10, 10, "rmoveto", n(0), o, "hintmask", []byte{0x40}, 5, n(c-1), o, "endchar")
					if c > 3 {
						add(10, 10, "rmoveto", n(2), o)
						add(10, 10, "rmoveto", 6, "hlineto", n(c/2), o)
					}
				}
				normal := len(cs)
				if c > 3 {
					// the number is pushed by another subroutine, or lies deeper on the stack
					add(10, 10, "rmoveto", c/2+1-b, o, o)
					add(10, 10, "rmoveto", 5, c-1-b, 6, c-1-b, o, "endchar")
					cs = cs[:normal+1]
				}
				src := newCFFSource(t, fmt.Sprintf("encodings local %v count %d form %d", local, c, form), cffSrcFont(cs, ci).SFNT())
				if src == nil {
					continue
				}
				for g := normal; g < len(cs); g++ {
					src.may[g] = true
				}
				for g := range cs {
					for k := range sets {
						src.check(t, []uint16{0, uint16(g)}, sets[k], true)
					}
					for h := range cs {
						src.check(t, []uint16{0, uint16(h), uint16(g)}, sets[(g+h)%3], true)
					}
				}
				var all []uint16
				for g := normal - 1; g >= 0; g-- {
					all = append(all, uint16(g))
				}
				src.check(t, all, font.KeepMinTables, true)
			}
		}
	}
	// hints, widths and masks inside subroutines
	for m := 0; m < 16; m++ {
		local := []bool{m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0}
		for _, p := range perms(4) {
			ss := newSubrSet(local, p)
			bodies := [][]byte{
				ref.CS(1, 2, 3, 4, "hstemhm", "return"),
				ref.CS(5, 6, "hintmask", []byte{0xA0}, "return"),
				ref.CS(append(append([]any{-30}, ss.call(0)...), "return")...),
				ref.CS(10, 11, "rmoveto", "return"),
			}
			var cs [][]byte
			cs = append(cs, ref.CS("endchar"))
			add := func(it ...any) {
				var b []byte
				for _, x := range it {
					if c, ok := x.(callTo); ok {
						b = append(b, ref.CS(ss.call(int(c))...)...)
					} else {
						b = append(b, ref.CS(x)...)
					}
				}
				cs = append(cs, b)
			}
			add(callTo(0), callTo(1), callTo(3), 5, "hlineto", "hintmask", []byte{0x60}, 6, "vlineto", "endchar")
			add(callTo(2), callTo(1), callTo(3), 5, "hlineto", "endchar")
			add(99, callTo(3), 5, "hlineto", callTo(3), 6, 7, "rlineto", "endchar")
			add(callTo(2), 7, 8, "cntrmask", []byte{0x11}, callTo(3), 9, "vlineto", "hintmask", []byte{0x0A}, 3, "hlineto", "endchar")
			add(44, callTo(0), callTo(1), 1, "hmoveto", 5, 6, "rlineto", "endchar")
			add(3, callTo(0), "endchar")
			src := newCFFSource(t, fmt.Sprintf("hints %04b %v", m, p), cffSrcFont(cs, ss.info(bodies)).SFNT())
			if src == nil {
				continue
			}
			for g := range cs {
				for h := range cs {
					src.check(t, []uint16{0, uint16(h), uint16(g)}, sets[(g+h)%3], true)
				}
				src.check(t, []uint16{0, uint16(g)}, sets[g%3], true)
			}
		}
	}
}

type callTo int

func c05tables(e *core.Env, sets [][]string) {
	names := [][]string{
		{".notdef", "A", "B", "own.x", "own.y", "C"},
		{".notdef", "own.a", "own.b", "own.c", "own.d", "own.e"},
		{".notdef", "space", "exclam", "quotedbl", "numbersign", "dollar"},
		{".notdef", "Semibold", "001.003", "Verif", "own.x", "Full Verif"},
		{".notdef", "", "e", "", "ee", "f"},
	}
	e.Case("tables", func(t *core.T) {
		for ni, nm := range names {
			for _, format := range []int{0, 1, 2, 255} {
				for wi, w := range [][2]int{{0, 0}, {500, 600}, {-3, 2000}, {32767, -32768}} {
					for opt := 0; opt < 16; opt++ {
						if format == 255 && ni != 2 {
							continue
						}
						ci := ref.CFFInfo{Charset: nm, CharsetFormat: format, DefaultW: w[0], NominalW: w[1]}
						ci.WriteWidths = wi > 0
						ci.FontMatrix = opt&1 != 0
						if opt&2 != 0 {
							ci.FullName = "Full Verif"
						}
						ci.OffSize = 1 + opt>>2
						if opt%3 == 0 {
							ci.Local = [][]byte{ref.CS(3, 3, "rlineto", "return"), ref.CS("return")}
						}
						if opt%3 == 1 {
							ci.Global = [][]byte{ref.CS("return"), ref.CS(3, 3, "rlineto", "return")}
						}
						cs := [][]byte{ref.CS("endchar")}
						for i := 1; i < 6; i++ {
							it := []any{}
							if i%2 == 0 {
								it = append(it, 17*i)
							}
							it = append(it, i, 2*i, "rmoveto", 10, 11, "rlineto")
							if ci.Local != nil {
								it = append(it, -107, "callsubr")
							} else if ci.Global != nil {
								it = append(it, -106, "callgsubr")
							}
							cs = append(cs, ref.CS(append(it, "endchar")...))
						}
						src := newCFFSource(t, fmt.Sprintf("tables names %d charset %d widths %v opt %d", ni, format, w, opt), cffSrcFont(cs, ci).SFNT())
						if src == nil {
							continue
						}
						k := 0
						listsOf(6, 2, func(l []uint16) {
							src.check(t, l, sets[k%3], true)
							k++
						})
						src.check(t, []uint16{0, 5, 3, 1, 2, 4}, sets[opt%3], true)
						src.check(t, []uint16{0, 1, 2, 3, 4, 5}, sets[opt%3], true)
					}
				}
			}
		}
	})
	// CID-keyed fonts: one or two font dictionaries
	e.Case("cid", func(t *core.T) {
		for nfd := 1; nfd <= 3; nfd++ {
			for _, fdf := range []int{0, 3} {
				for sub := 0; sub < 4; sub++ {
					ci := ref.CFFInfo{CID: true, FDFormat: fdf, CharsetFormat: 2}
					for d := 0; d < nfd; d++ {
						var l [][]byte
						if sub&1 != 0 {
							l = [][]byte{ref.CS(d+1, 3, "rlineto", "return"), ref.CS("return")}
						}
						ci.FDLocal = append(ci.FDLocal, l)
					}
					if sub&2 != 0 {
						ci.Global = [][]byte{ref.CS("return"), ref.CS(3, 3, "rlineto", "return")}
					}
					cs := [][]byte{ref.CS("endchar")}
					for i := 1; i < 7; i++ {
						it := []any{i, 2 * i, "rmoveto", 10, 11, "rlineto"}
						if sub&1 != 0 {
							it = append(it, -107, "callsubr")
						}
						if sub&2 != 0 {
							it = append(it, -106, "callgsubr")
						}
						cs = append(cs, ref.CS(append(it, "endchar")...))
					}
					for i := range cs {
						ci.FDSelect = append(ci.FDSelect, byte(i/2%nfd))
					}
					src := newCFFSource(t, fmt.Sprintf("cid %d format %d sub %d", nfd, fdf, sub), cffSrcFont(cs, ci).SFNT())
					if src == nil {
						continue
					}
					k := 0
					listsOf(7, 2, func(l []uint16) {
						src.check(t, l, sets[k%3], true)
						k++
					})
					// more glyphs than the original
					src.check(t, []uint16{0, 6, 5, 4, 3, 2, 1, 6, 5, 4, 3, 2, 1, 6, 1}, sets[k%3], true)
					src.check(t, []uint16{0, 1, 2, 3, 4, 5, 6, 1, 1, 1, 1, 1}, sets[(k+1)%3], true)
				}
			}
		}
	})
}
