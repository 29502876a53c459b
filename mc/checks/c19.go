package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
	"verifmc/vsched"
)

// C19: concurrent use of one font. A copy of the library with a scheduling point before every statement is run under a controlled scheduler, and the
// library itself is run under the race detector with goroutines that follow each other in time but not in its order.

func init() {
	core.Register(&core.Check{ID: "C19", Run: c19, CaseLimit: 400 * time.Second,
		Rule: "all unordered pairs of operations on a font, from a font just parsed and from one on which both operations ran: in a copy of the library with a scheduling point before every statement, both sequential orders, all schedules with one preemption at any point and, when one of the operations changes memory that the font or a package variable reaches, all schedules with two preemptions " +
			"(at every pair of points; when there are too many pairs, at the points where the first operation changed shared memory times every point of the other; when there are still too many, at points where either changed shared memory, of which the first and last 30 when there are too many); the results are compared with those of the operation run alone. All pairs in both orders under the race detector of the library as it is, without synchronisation between the goroutines",
		Assumptions: []string{
			"a data race is one that the race detector of Go reports for two operations that are not ordered by the library's own synchronisation",
			"operations that change no memory reachable from the font or package variables, as seen by a hash at every statement, commute",
			"shared memory of dependencies (Brotli, zlib, parse) is left to the race detector",
		}})
}

// c19Globals returns the package variables of the library; it is set in the scheduled build only.
var c19Globals func() ([]string, []any)

type c19font struct {
	name  string
	b     []byte
	first int // first glyph that is asked for
	n     int
	other []byte // another font
	woff2 []byte
	woff  []byte
	afm   []byte
}

type c19op struct {
	name string
	need func(w *c19font, f *font.SFNT) bool
	fn   func(w *c19font, f *font.SFNT) any
}

func c19fonts() (out []*c19font) {
	add := func(name string, f *ref.Font) *c19font {
		w := &c19font{name: name, b: f.SFNT(), n: len(f.Glyphs)}
		out = append(out, w)
		return w
	}
	f := ttFont(plain(5))
	f.Glyphs[3] = ref.Glyph{Comps: []ref.Component{{GID: 2, Dx: 3}, {GID: 1, Dy: -9}}, Instr: []byte{1, 2, 3}, HasInstr: true}
	f.PostVer, f.Names = 2, []string{".notdef", "a", "own", "c", "own"}
	f.Adv = []uint16{500, 510, 520, 530, 530}
	f.VAdv, f.TSB, f.NVM = []uint16{900, 910, 920, 930, 930}, []int16{1, 2, 3, 4, 5}, 4
	f.Subs = []ref.CmapSub{{Format: 4, Map: map[rune]uint16{'A': 1, 'C': 3, 'D': 2}}, {Format: 12, Map: map[rune]uint16{'A': 1, 'B': 2, 0x10400: 4}}}
	f.Recs = []ref.CmapRec{{Platform: 3, Encoding: 1}, {Platform: 3, Encoding: 10, Sub: 1}}
	f.Kern = []ref.KernSub{{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: 5}, {L: 2, R: 1, V: 6}}}}
	f.NameRecs = []ref.NameRec{{Platform: 3, Encoding: 1, Language: 0x409, Name: 1, Value: ref.U16BE("Family")}, {Platform: 1, Name: 1, Value: []byte("Family")}}
	f.Extra = map[string][]byte{"cvt ": {0, 1, 0, 2}, "gasp": {0, 1, 0, 0}}
	f.OS2 = &ref.OS2{Version: 4, Weight: 400, TypoAsc: 700, TypoDesc: -200, TypoGap: 90, WinAsc: 800, WinDesc: 300}
	tt := add("TrueType", f)
	_, tb, err := ref.ReadDir(tt.b)
	if err != nil {
		panic(err)
	}
	tt.woff2 = ref.BuildWOFF2("\x00\x01\x00\x00", tb, ref.W2Opts{})
	tt.woff = ref.BuildWOFF("\x00\x01\x00\x00", tb, ref.WOFFOpts{})
	tt.afm = []byte("StartFontMetrics 4.1\nFontName X\nEncodingScheme FontSpecific\nStartCharMetrics 2\nC 65 ; WX 500 ; N A ; B 0 0 10 10 ;\nC 66 ; WX 600 ; N alpha ; B 0 0 10 10 ;\nEndCharMetrics\nStartKernData\nStartKernPairs 1\nKPX A alpha -50\nEndKernPairs\nEndKernData\nEndFontMetrics\n")

	g := ttFont(plain(3))
	g.PostVer = 3
	g.Subs = []ref.CmapSub{{Format: 0, Map: map[rune]uint16{'A': 1, 'B': 2, 'b': 2}}, {Format: 6, Map: map[rune]uint16{'B': 2, 'C': 1}}, {Format: 14, Raw: append([]byte{0, 14, 0, 0, 0, 10}, 0, 0, 0, 0)}}
	g.Recs = []ref.CmapRec{{Encoding: 3, Sub: 1}, {Encoding: 5, Sub: 2}, {Platform: 1}}
	add("formats 0 6 14", g).first = 1 // glyph 0 has most characters of format 0, which takes very many steps

	c := c06full(true)
	c.Glyphs, c.Names = c.Glyphs[:4], c.Names[:4]
	c.Adv, c.VAdv, c.TSB, c.NVM = c.Adv[:4], c.VAdv[:4], c.TSB[:4], 4
	c.Subs, c.Recs = cmap4(map[rune]uint16{'A': 1, 'C': 3, 'D': 2})
	c.Kern = nil
	c.C.Local, c.C.Global = [][]byte{{11}, ref.CS(3, 4, "rlineto", "return")}, [][]byte{ref.CS(6, 4, "rlineto", -106, "callsubr", "return"), {11}, {11}}
	c.Glyphs[2].CS = ref.CS(1, 1, "rmoveto", -106, "callsubr", "endchar")
	c.Glyphs[3].CS = ref.CS(1, 7, "rmoveto", -107, "callgsubr", "endchar")
	c.C.Charset = []string{".notdef", "space", "exclam", "quotedbl"} // found early in the list of standard strings
	cf := add("CFF", c)

	d := cffSrcFont([][]byte{{14}, ref.CS(1, 2, "rmoveto", -107, "callsubr", "endchar"), ref.CS(1, 2, "rmoveto", 4, "hlineto", "endchar")},
		ref.CFFInfo{CID: true, FDSelect: []byte{0, 1, 0}, FDFormat: 3, FDLocal: [][][]byte{{ref.CS(1, 6, "rlineto", "return")}, {ref.CS(2, 6, "rlineto", "return")}}})
	add("CID", d)
	for _, w := range out {
		w.other = cf.b
		if w == cf {
			w.other = tt.b
		}
	}
	return
}

// c19real are fonts for the race detector only.
func c19real() (out []*c19font) {
	for _, n := range []string{"DejaVuSerif.ttf", "EBGaramond12-Regular.otf"} {
		if b := resource("resources/" + n); b != nil {
			out = append(out, &c19font{name: n, b: b, n: 30, other: c19fonts()[2].b})
		}
	}
	return
}

func c19runes(rs []rune) string {
	rs = append([]rune{}, rs...)
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return fmt.Sprintf("%U", rs)
}

var c19probes = []rune{-1, 0, 'A', 'B', 'C', 'D', 'b', 0x400, 0xFFFF, 0x10400, 0x10FFFF}

func c19ops() (out []c19op) {
	add := func(name string, need func(w *c19font, f *font.SFNT) bool, fn func(w *c19font, f *font.SFNT) any) {
		out = append(out, c19op{name, need, fn})
	}
	all := func(w *c19font, fn func(g uint16) any) any {
		var o []any
		for i := w.first; i <= w.n; i++ {
			o = append(o, fn(uint16(i)))
		}
		return fmt.Sprint(o)
	}
	add("GlyphIndex", nil, func(w *c19font, f *font.SFNT) any {
		var o []uint16
		for _, r := range c19probes {
			o = append(o, f.GlyphIndex(r))
		}
		return fmt.Sprint(o)
	})
	add("GlyphToUnicode of one", nil, func(w *c19font, f *font.SFNT) any { return c19runes(f.GlyphToUnicode(2)) })
	add("GlyphToUnicode of all", nil, func(w *c19font, f *font.SFNT) any {
		return all(w, func(g uint16) any { return c19runes(f.GlyphToUnicode(g)) })
	})
	add("GlyphName of all", nil, func(w *c19font, f *font.SFNT) any {
		return all(w, func(g uint16) any { return f.GlyphName(g) + "," })
	})
	add("FindGlyphName of one", nil, func(w *c19font, f *font.SFNT) any {
		return fmt.Sprint(f.FindGlyphName("own"), f.FindGlyphName("exclam"))
	})
	add("FindGlyphName of many", nil, func(w *c19font, f *font.SFNT) any {
		var o []uint16
		for _, n := range []string{".notdef", "a", "A", "own", "exclam", "C", "none", ""} {
			o = append(o, f.FindGlyphName(n))
		}
		return fmt.Sprint(o)
	})
	add("metrics", nil, func(w *c19font, f *font.SFNT) any {
		a, b, c := f.VerticalMetrics()
		return fmt.Sprint(f.NumGlyphs(), f.UnitsPerEm(), a, b, c, all(w, func(g uint16) any { return fmt.Sprint(f.GlyphAdvance(g), f.GlyphVerticalAdvance(g)) }))
	})
	add("GlyphBounds of all", nil, func(w *c19font, f *font.SFNT) any {
		return all(w, func(g uint16) any { a, b, c, d := f.GlyphBounds(g); return []int16{a, b, c, d} })
	})
	add("GlyphPath of all", nil, func(w *c19font, f *font.SFNT) any {
		return all(w, func(g uint16) any { p, err := sut.Path(f, g); return fmt.Sprint(p, err) })
	})
	add("GlyphPath with queries inside", nil, func(w *c19font, f *font.SFNT) any {
		return all(w, func(g uint16) any {
			p := &c19asking{f: f, g: g}
			err := f.GlyphPath(p, g, 0, 0, 0, 1, font.NoHinting)
			return fmt.Sprint(p.P, p.answers, err)
		})
	})
	add("Kerning of all", nil, func(w *c19font, f *font.SFNT) any {
		return all(w, func(g uint16) any {
			return all(w, func(h uint16) any { return f.Kerning(g, h) })
		})
	})
	add("names", func(w *c19font, f *font.SFNT) bool { return f.Name != nil }, func(w *c19font, f *font.SFNT) any {
		var o []string
		for i := font.NameID(0); i < 7; i++ {
			for _, r := range f.Name.Get(i) {
				o = append(o, fmt.Sprint(r.Platform, r.Encoding, r.Language, r.Name, r.String()))
			}
		}
		return strings.Join(o, "|")
	})
	add("glyf", func(w *c19font, f *font.SFNT) bool { return f.Glyf != nil }, func(w *c19font, f *font.SFNT) any {
		return all(w, func(g uint16) any {
			deps, err := f.Glyf.Dependencies(g)
			c, err2 := f.Glyf.Contour(g)
			s := ""
			if c != nil {
				s = fmt.Sprintf("%+v", *c)
			}
			return fmt.Sprint(f.Glyf.Get(g), f.Glyf.IsComposite(g), deps, err, s, err2)
		})
	})
	add("subtables", nil, func(w *c19font, f *font.SFNT) any {
		var o []any
		for _, s := range f.Cmap.Subtables {
			for _, r := range c19probes {
				g, ok := s.Get(r)
				o = append(o, g, ok)
			}
			o = append(o, c19runes(s.ToUnicode(1)))
		}
		return fmt.Sprint(o)
	})
	add("table writing", nil, func(w *c19font, f *font.SFNT) any {
		var o []any
		if f.Post != nil {
			b, err := f.Post.Write()
			o = append(o, b, err)
		}
		if f.Kern != nil {
			o = append(o, f.Kern.Write())
		}
		if f.Maxp != nil {
			o = append(o, f.Maxp.Write())
		}
		if f.CFF != nil {
			b, err := f.CFF.Write()
			o = append(o, b, err)
		}
		return fmt.Sprint(o)
	})
	add("CFF", func(w *c19font, f *font.SFNT) bool { return f.CFF != nil }, func(w *c19font, f *font.SFNT) any {
		return fmt.Sprint(f.CFF.Version(), fmt.Sprintf("%+v", *f.CFF.TopDICT()), all(w, func(g uint16) any {
			n, ok := f.CFF.GlyphName(g)
			p, err := f.CFF.PrivateDICT(g)
			s := ""
			if p != nil {
				s = fmt.Sprintf("%+v", *p)
			}
			return fmt.Sprint(n, ok, s, err)
		}))
	})
	list := func(w *c19font) []uint16 {
		return []uint16{0, uint16(w.n - 1), 1}
	}
	for _, s := range wSels[:3] {
		add("Subset "+s.name, nil, func(w *c19font, f *font.SFNT) any {
			g, err := f.Subset(list(w), font.SubsetOptions{Tables: append([]string{}, s.s...)})
			if err != nil {
				return err.Error()
			}
			return g
		})
	}
	add("Subset, rename and Write", nil, func(w *c19font, f *font.SFNT) any {
		g, err := f.Subset(list(w), font.SubsetOptions{Tables: append([]string{}, font.KeepAllTables...)})
		if err != nil {
			return err.Error()
		}
		var ns []string
		for i := 0; i < int(g.NumGlyphs()); i++ {
			ns = append(ns, fmt.Sprintf("n%d", i))
		}
		if f.Post != nil || f.IsCFF {
			err = g.SetGlyphNames(ns)
		}
		return []any{err, g.Write(), g}
	})
	add("Subset, query and WriteWOFF2", nil, func(w *c19font, f *font.SFNT) any {
		g, err := f.Subset(list(w), font.SubsetOptions{Tables: append([]string{}, font.KeepAllTables...)})
		if err != nil {
			return err.Error()
		}
		v := sut.Observe(g, sut.Opt{Runes: c19probes, Names: []string{"own", "A"}}).Canon()
		b, err := g.WriteWOFF2()
		return []any{v, b, err}
	})
	add("Subset and Merge", nil, func(w *c19font, f *font.SFNT) any {
		g, err := f.Subset(list(w), font.SubsetOptions{Tables: append([]string{}, font.KeepAllTables...)})
		if err != nil {
			return err.Error()
		}
		h, err := font.ParseSFNT(clone(w.b), 0)
		if err != nil {
			return err.Error()
		}
		if err := g.Merge(h, font.MergeOptions{RearrangeCmap: true}); err != nil {
			return err.Error()
		}
		return []any{g.Write(), g}
	})
	add("Write", nil, func(w *c19font, f *font.SFNT) any { return f.Write() })
	add("WriteWOFF2", nil, func(w *c19font, f *font.SFNT) any {
		b, err := f.WriteWOFF2()
		return []any{b, err}
	})
	add("parse the same bytes", nil, func(w *c19font, f *font.SFNT) any {
		g, err := font.ParseSFNT(w.b, 0)
		if err != nil {
			return err.Error()
		}
		return sut.Observe(g, sut.Opt{Runes: c19probes, Names: []string{"own", "A"}}).Canon()
	})
	add("use another font", nil, func(w *c19font, f *font.SFNT) any {
		g, err := font.ParseSFNT(w.other, 0)
		if err != nil {
			return err.Error()
		}
		v := sut.Observe(g, sut.Opt{Runes: c19probes, Names: []string{"own", "A"}}).Canon()
		h, err := g.Subset([]uint16{0, 2, 1}, font.SubsetOptions{Tables: append([]string{}, font.KeepPDFTables...)})
		if err != nil {
			return err.Error()
		}
		return []any{v, h.Write(), g.Write()}
	})
	add("containers", func(w *c19font, f *font.SFNT) bool { return w.woff != nil }, func(w *c19font, f *font.SFNT) any {
		a, err := font.ParseWOFF(w.woff)
		b, err2 := font.ParseWOFF2(w.woff2)
		return []any{a, err, b, err2}
	})
	add("AFM", func(w *c19font, f *font.SFNT) bool { return w.afm != nil }, func(w *c19font, f *font.SFNT) any {
		a, err := font.ParseAFM(w.afm)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(a.GlyphIndex('A'), a.GlyphIndex(0x3B1), a.GlyphAdvance(1), a.Kerning(0, 1))
	})
	return
}

// c19asking is a path that asks the font while it is drawn.
type c19asking struct {
	sut.Rec
	f       *font.SFNT
	g       uint16
	answers []string
}

func (p *c19asking) MoveTo(x, y float64) {
	p.Rec.MoveTo(x, y)
	q, err := sut.Path(p.f, p.g)
	a, b, c, d := p.f.GlyphBounds(p.g)
	p.answers = append(p.answers, fmt.Sprint(q, err, a, b, c, d, p.f.GlyphIndex('A'), c19runes(p.f.GlyphToUnicode(p.g)), p.f.GlyphName(p.g), p.f.FindGlyphName("own"), p.f.Kerning(p.g, 1)))
}

// c19digests are the digests of fonts by the hash of everything they reach.
var c19digests = map[uint64]string{}

// c19digest makes what an operation returned comparable; it runs when nothing else does.
func c19digest(v any) string {
	switch v := v.(type) {
	case string:
		return v
	case nil:
		return "nil"
	case error:
		return "error " + v.Error()
	case []any:
		var s []string
		for _, x := range v {
			s = append(s, c19digest(x))
		}
		return strings.Join(s, "; ")
	case []byte:
		if len(v) == 0 {
			return "no bytes"
		}
		if 4 <= len(v) && string(v[:4]) == "wOF2" {
			b, err := font.ParseWOFF2(v)
			if err != nil {
				return "bad WOFF2: " + err.Error()
			}
			return fmt.Sprintf("WOFF2 of %s", c19digest(b))
		}
		if _, tb, err := ref.ReadDir(v); err == nil {
			var tags []string
			for t := range tb {
				tags = append(tags, t)
			}
			sort.Strings(tags)
			var s []string
			for _, t := range tags {
				s = append(s, t+" "+c19table(t, tb[t]))
			}
			return "font " + strings.Join(s, " ")
		}
		return c19table("", v)
	case *font.SFNT:
		key := wState(v)
		if s, ok := c19digests[key]; ok {
			return s
		}
		var tags []string
		for t := range v.Tables {
			tags = append(tags, t)
		}
		sort.Strings(tags)
		var s []string
		for _, t := range tags {
			s = append(s, t+" "+c19table(t, v.Tables[t]))
		}
		r := "font " + strings.Join(s, " ") + " " + wQuery(v).Canon()
		if len(c19digests) < 1000 {
			c19digests[key] = r
		}
		return r
	}
	return fmt.Sprint(v)
}

func c19table(tag string, b []byte) string {
	b = clone(b)
	if tag == "head" && 36 <= len(b) {
		copy(b[8:12], make([]byte, 4))
		copy(b[28:36], make([]byte, 8))
	}
	if len(b) <= 24 {
		return hex.EncodeToString(b)
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(h[:6]))
}

// c19out is what the driver reports.
type c19out struct {
	Pairs, Schedules, Two, Points, States, Writers int
	Complete                                       int // pairs with all schedules of two preemptions
	Viol                                           [][2]string
	Sample                                         string
	Cut                                            int // pairs of which not all was explored in time
}

// C19Drive is the driver: all pairs of an operation with those that follow it.
func C19Drive(args []string) {
	mode, fname, opName, tier := args[0], args[1], args[2], args[3]
	debug.SetGCPercent(400)
	var w *c19font
	for _, x := range append(c19fonts(), c19real()...) {
		if x.name == fname {
			w = x
		}
	}
	f, err := font.ParseSFNT(w.b, 0)
	if err != nil {
		panic(err)
	}
	ops := []c19op{}
	for _, o := range c19ops() {
		if o.need == nil || o.need(w, f) {
			ops = append(ops, o)
		}
	}
	out := &c19out{}
	seen := map[string]bool{}
	fail := func(sig, format string, a ...any) {
		if !seen[sig] && len(out.Viol) < 8 {
			seen[sig] = true
			out.Viol = append(out.Viol, [2]string{sig, fmt.Sprintf(format, a...)})
		}
	}
	// code that spins or blocks outside of the scheduler's control
	progress := time.AfterFunc(300*time.Second, func() {
		fmt.Fprintf(os.Stderr, "no end after 300 s\n")
		pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
		os.Exit(3)
	})
	defer progress.Stop()
	secs, err := strconv.ParseFloat(args[4], 64)
	if err != nil {
		panic(err)
	}
	until := time.Now().Add(time.Duration(secs * float64(time.Second)))
	on, left := false, len(ops)
	for _, o := range ops {
		if o.name == opName {
			break
		}
		left--
	}
	for _, a := range ops {
		if on = a.name == opName; !on {
			continue
		}
		from := false
		for _, b := range ops {
			if from = from || a.name == b.name; from {
				if time.Now().After(until) {
					out.Cut++
					continue
				}
				progress.Reset(300 * time.Second)
				out.Pairs++
				c19until = time.Now().Add(max(2*time.Second, 2*time.Until(until)/time.Duration(left)))
				left--
				if mode == "sched" {
					c19pair(w, a, b, tier == "thorough", out, fail)
				} else {
					c19race(w, a, b, out, fail)
				}
			}
		}
	}
	js, _ := json.Marshal(out)
	fmt.Printf("RESULT %s\n", js)
}

// c19until is the time at which the exploration of a pair is cut.
var c19until time.Time

func c19parse(w *c19font) *font.SFNT {
	f, err := font.ParseSFNT(w.b, 0)
	if err != nil {
		panic(err)
	}
	return f
}

// c19took is the shortest time it took to hash a package variable.
var c19took = map[int]time.Duration{}

// c19state hashes all memory that is reachable from the font and from package variables of moderate size.
func c19state(f *font.SFNT, large bool) uint64 {
	h := &wHash{full: true}
	h.h.SetSeed(wSeed)
	h.walk(reflect.ValueOf(f).Elem(), "")
	_, ptrs := c19Globals()
	for i, p := range ptrs {
		v := reflect.ValueOf(p).Elem()
		switch v.Kind() {
		case reflect.Map, reflect.Slice, reflect.Array, reflect.String:
			if !large && 64 < v.Len() {
				continue
			}
		}
		if !large && 300*time.Microsecond < c19took[i] {
			continue
		}
		t := time.Now()
		h.walk(v, "")
		if d := time.Since(t); large && (c19took[i] == 0 || d < c19took[i]) {
			c19took[i] = d
		}
	}
	return h.h.Sum64()
}

type c19alone struct {
	res       string
	steps     int
	Writes    []int // points before which shared memory changed
	Transient bool  // the changes are undone
	Known     bool
}

var c19alones = map[string]*c19alone{}

func c19file2(w *c19font, op c19op) string {
	return filepath.Join(os.TempDir(), "c19", "alone "+w.name+" "+op.name)
}

func c19pair(w *c19font, a, b c19op, thorough bool, out *c19out, fail func(sig, format string, a ...any)) {
	ops := []c19op{a, b}
	for _, warm := range []bool{false, true} {
		start := func() *font.SFNT {
			f := c19parse(w)
			if warm {
				a.fn(w, f)
				b.fn(w, f)
			}
			return f
		}
		var alone [2]c19alone
		desc := func(i int) string { return fmt.Sprintf("font %q, %q", w.name, ops[i].name) }
		ok := true
		for i, op := range ops {
			// not scheduled
			alone[i].res = c19digest(op.fn(w, c19parse(w)))
			// scheduled, with the memory examined at every point; what is found for the font just parsed is kept for other pairs
			fresh := c19alones[op.name]
			if fresh == nil {
				fresh = &c19alone{}
				c19alones[op.name] = fresh
				b, err := os.ReadFile(c19file2(w, op))
				if err == nil {
					err = json.Unmarshal(b, fresh)
				}
				if err != nil {
					*fresh = c19alone{}
				}
			}
			f := start()
			l0 := c19state(f, true)
			s0 := c19state(f, false)
			first := s0
			var v any
			last := 0
			hook := func(_, step int) {
				if s := c19state(f, false); s != s0 {
					s0 = s
					alone[i].Writes = append(alone[i].Writes, step)
				}
				last = step
			}
			quick := warm && !fresh.Transient || !warm && fresh.Known
			if quick {
				hook = nil
			}
			r := vsched.Run([]func(){func() { v = op.fn(w, f) }}, nil, 50000000, hook)
			l1 := c19state(f, true)
			s1 := c19state(f, false)
			if quick && warm && (s1 != first || l1 != l0) {
				f = start()
				s0 = c19state(f, false)
				hook = func(_, step int) {
					if s := c19state(f, false); s != s0 {
						s0 = s
						alone[i].Writes = append(alone[i].Writes, step)
					}
					last = step
				}
				r = vsched.Run([]func(){func() { v = op.fn(w, f) }}, nil, 50000000, hook)
				s1 = c19state(f, false)
			}
			if !warm && fresh.Known {
				alone[i].Writes = fresh.Writes
			} else if hook != nil {
				if s1 != s0 {
					alone[i].Writes = append(alone[i].Writes, last+1)
				}
				if len(alone[i].Writes) == 0 && l1 != l0 {
					// a large package variable changed
					alone[i].Writes = c19range(last)
				}
				out.Points += r.Steps[0]
				out.States += len(alone[i].Writes)
			}
			if !warm && !fresh.Known {
				fresh.Known, fresh.Transient, fresh.Writes = true, s1 == first && 0 < len(alone[i].Writes), alone[i].Writes
				js, _ := json.Marshal(fresh)
				tmp := fmt.Sprintf("%s.%d", c19file2(w, op), os.Getpid())
				if os.WriteFile(tmp, js, 0644) == nil {
					os.Rename(tmp, c19file2(w, op))
				}
			}
			alone[i].steps = r.Steps[0]
			if r.Panic[0] != "" || r.Deadlock != nil || r.Hang {
				fail("sched/alone", "%s run alone%s: panic %q, deadlock %v, hang %v\n%s", desc(i), c19warm(warm), r.Panic[0], r.Deadlock, r.Hang, r.Stack[0])
				ok = false
			} else if s := c19digest(v); s != alone[i].res {
				fail("sched/repeated", "%s: run%s gives %s, expected %s", desc(i), c19warm(warm), s, alone[i].res)
				ok = false
			}
		}
		if !ok {
			continue
		}
		wr := len(alone[0].Writes)+len(alone[1].Writes) > 0
		if wr {
			out.Writers++
		} else if warm {
			continue // the same as the font just parsed
		}
		limit := 20*(alone[0].steps+alone[1].steps) + 10000
		cut := false
		try := func(segs ...vsched.Seg) bool {
			if cut || time.Now().After(c19until) {
				if !cut {
					out.Cut++
				}
				cut = true
				return false
			}
			f := start()
			var v [2]any
			r := vsched.Run([]func(){func() { v[0] = a.fn(w, f) }, func() { v[1] = b.fn(w, f) }}, segs, limit, nil)
			out.Schedules++
			good := true
			at := func() string {
				return fmt.Sprintf("font %q%s, %q and %q, schedule %s", w.name, c19warm(warm), a.name, b.name, c19segs(segs))
			}
			if r.Hang {
				fail("sched/hang", "%s: the operations do not end", at())
				return false
			} else if r.Deadlock != nil {
				fail("sched/deadlock", "%s: operations %v wait for ever", at(), r.Deadlock)
				return false
			}
			for i := range ops {
				if r.Panic[i] != "" {
					fail("sched/panic", "%s: %q panics: %s\n%s", at(), ops[i].name, r.Panic[i], r.Stack[i])
					good = false
				} else if s := c19digest(v[i]); s != alone[i].res {
					fail("sched/result", "%s: %q gives\n%s\nand alone\n%s", at(), ops[i].name, s, alone[i].res)
					good = false
				}
			}
			return good
		}
		// no preemption
		ok = try(c19seg(0, -1)) && try(c19seg(1, -1))
		heavy := strings.Contains(a.name+b.name, "WOFF2") && !thorough
		if ok && !wr && (heavy || !thorough && 2500 < alone[0].steps+alone[1].steps) {
			continue // they commute
		}
		// one preemption
		for i := 0; ok && i < 2; i++ {
			ks := c19range(alone[i].steps)
			if heavy {
				ks = alone[i].Writes
			}
			for _, k := range ks {
				if ok {
					ok = try(c19seg(i, k), c19seg(1-i, -1))
				}
			}
		}
		if !ok || !wr || heavy {
			continue
		}
		// two preemptions
		most := 4000
		if thorough {
			most = 40000
		}
		n := out.Schedules
		for i := 0; ok && i < 2; i++ {
			p, q := c19range(alone[i].steps), c19range(alone[1-i].steps)
			full := true
			if most < len(p)*len(q) {
				full = false
				p = alone[i].Writes
			}
			if most < len(p)*len(q) {
				q = alone[1-i].Writes
			}
			if most < len(p)*len(q) {
				p, q = c19ends(p), c19ends(q)
			}
			if full && i == 1 {
				out.Complete++
			}
			for _, k := range p {
				for _, l := range q {
					if ok {
						ok = try(c19seg(i, k), c19seg(1-i, l), c19seg(i, -1))
					}
				}
			}
		}
		out.Two += out.Schedules - n
		// three of them
		if ok && a.name == b.name && thorough {
			// the first two are interrupted at points where memory changed
			ks := c19ends(alone[0].Writes)
			for _, k := range ks {
				for _, l := range ks {
					if time.Now().After(c19until) {
						if !cut {
							out.Cut++
						}
						cut = true
						break
					}
					f := start()
					var v [3]any
					var fns []func()
					for i := range v {
						fns = append(fns, func() { v[i] = a.fn(w, f) })
					}
					segs := []vsched.Seg{c19seg(0, k), c19seg(1, l), c19seg(2, -1), c19seg(1, -1)}
					r := vsched.Run(fns, segs, limit, nil)
					out.Schedules++
					for i := range v {
						if r.Panic[i] != "" || r.Deadlock != nil || r.Hang {
							fail("sched/three", "font %q%s, %q three times, schedule %s: panic %q, deadlock %v, hang %v", w.name, c19warm(warm), a.name, c19segs(segs), r.Panic[i], r.Deadlock, r.Hang)
						} else if s := c19digest(v[i]); s != alone[0].res {
							fail("sched/three", "font %q%s, %q three times, schedule %s: gives\n%s\nand alone\n%s", w.name, c19warm(warm), a.name, c19segs(segs), s, alone[0].res)
						}
					}
				}
			}
		}
		if out.Sample == "" {
			out.Sample = fmt.Sprintf("%q and %q on font %q%s: %d and %d points, shared memory changes before points %v and %v", a.name, b.name, w.name, c19warm(warm), alone[0].steps, alone[1].steps, alone[0].Writes, alone[1].Writes)
		}
	}
}

func c19seg(task, stop int) vsched.Seg { return vsched.Seg{Task: task, Stop: stop} }

func c19range(n int) (out []int) {
	for k := 1; k <= n; k++ {
		out = append(out, k)
	}
	return
}

// c19ends keeps the first and last 30.
func c19ends(p []int) []int {
	if len(p) <= 60 {
		return p
	}
	return append(append([]int{}, p[:30]...), p[len(p)-30:]...)
}

func c19warm(w bool) string {
	if w {
		return " on which both operations ran before"
	}
	return ""
}

func c19segs(segs []vsched.Seg) string {
	var s []string
	for _, g := range segs {
		if g.Stop < 0 {
			s = append(s, fmt.Sprintf("operation %d to its end", g.Task))
		} else {
			s = append(s, fmt.Sprintf("operation %d to point %d", g.Task, g.Stop))
		}
	}
	return strings.Join(s, ", ")
}

// c19race runs one operation after the other in goroutines that the race detector takes for unordered, in both orders.
func c19race(w *c19font, a, b c19op, out *c19out, fail func(sig, format string, a ...any)) {
	ops := []c19op{a, b}
	hang := time.AfterFunc(30*time.Second, func() {
		fmt.Fprintf(os.Stderr, "the operations do not end\n")
		pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
		os.Exit(3)
	})
	defer hang.Stop()
	for _, warm := range []bool{false, true} {
		for first := 0; first < 2; first++ {
			hang.Reset(30 * time.Second)
			fmt.Printf("AT font %q%s, %q, then %q\n", w.name, c19warm(warm), ops[first].name, ops[1-first].name)
			f := c19parse(w)
			if warm {
				a.fn(w, f)
				b.fn(w, f)
			}
			var v [2]any
			var p [2]string
			var turn int32
			done := make(chan bool, 2)
			for i := range ops {
				go func() {
					defer func() { done <- true }()
					if i != first {
						vsched.Await(&turn, 1)
					} else {
						defer vsched.Set(&turn, 1)
					}
					defer func() {
						if r := recover(); r != nil {
							p[i] = fmt.Sprintf("%v\n%s", r, debug.Stack())
						}
					}()
					v[i] = ops[i].fn(w, f)
				}()
			}
			<-done
			<-done
			out.Schedules++
			for i := range ops {
				res := c19digest(ops[i].fn(w, c19parse(w)))
				if p[i] != "" {
					fail("goroutines/panic", "font %q%s, %q, then %q: %s", w.name, c19warm(warm), ops[first].name, ops[1-first].name, p[i])
				} else if s := c19digest(v[i]); s != res {
					fail("goroutines/result", "font %q%s, %q, then %q: %q gives\n%s\nand alone\n%s", w.name, c19warm(warm), ops[first].name, ops[1-first].name, ops[i].name, s, res)
				}
			}
		}
	}
}

func c19(e *core.Env) {
	sched, race, schedErr := c19build()
	if schedErr != nil {
		e.Count("scheduled_copy_unavailable", 1)
		fmt.Fprintf(os.Stderr, "the library cannot be scheduled, only the race detector is used: %v\n", schedErr)
	}
	tier := "quick"
	if e.Thorough {
		tier = "thorough"
	}
	start, budget, each := time.Now(), 400*time.Second, 250.0
	if e.Thorough {
		budget, each = 2900*time.Second, 140.0
	}
	run := func(mode, bin, fname, op string) {
		e.Case(mode+"/"+fname+"/"+op, func(t *core.T) {
			// within the limits of time of the case and of the check
			secs := min(each, time.Until(start.Add(budget)).Seconds()+120)
			c := exec.Command(bin, "-c19", mode, fname, op, tier, fmt.Sprint(max(10, secs)))
			c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=10", "GOTRACEBACK=all")
			if mode == "sched" {
				c.Env = append(c.Env, "GOMAXPROCS=1")
			} else {
				c.Env = append(c.Env, "GOMAXPROCS=3")
			}
			var so, se bytes.Buffer
			c.Stdout, c.Stderr = &so, &se
			if err := c.Start(); err != nil {
				panic(err)
			}
			limit := time.AfterFunc(380*time.Second, func() { c.Process.Kill() })
			err := c.Wait()
			limit.Stop()
			at := ""
			var out *c19out
			for _, l := range strings.Split(so.String(), "\n") {
				if s, ok := strings.CutPrefix(l, "AT "); ok {
					at = s
				} else if s, ok := strings.CutPrefix(l, "RESULT "); ok {
					out = &c19out{}
					if err := json.Unmarshal([]byte(s), out); err != nil {
						panic(err)
					}
				}
			}
			if out == nil {
				msg := se.String()
				if 6000 < len(msg) {
					msg = msg[:6000]
				}
				if strings.Contains(msg, "WARNING: DATA RACE") {
					t.Fail("race", "%s: %s", at, msg)
				} else {
					t.Fail(map[string]string{"sched": "sched", "race": "goroutines"}[mode]+"/died", "%s: %v: %s", at, err, msg)
				}
				return
			}
			for _, v := range out.Viol {
				t.Fail(v[0], "%s", v[1])
			}
			t.Trans(out.Schedules)
			t.State(fname + op + mode)
			e.Count("pairs_"+mode, int64(out.Pairs))
			e.Count("schedules_"+mode, int64(out.Schedules))
			if 0 < out.Cut {
				e.Count("pairs_cut_for_time", int64(out.Cut))
				e.Cut()
			}
			if mode == "sched" {
				e.Count("schedules_with_two_preemptions", int64(out.Two))
				e.Count("pairs_that_change_shared_memory", int64(out.Writers))
				e.Count("pairs_with_all_schedules_of_two_preemptions", int64(out.Complete))
				e.Count("points_of_operations_alone", int64(out.Points))
				e.Count("distinct_shared_states_along_operations", int64(out.States))
			}
			if out.Sample != "" {
				t.Sample(out.Sample)
			}
			t.Trace()
		})
	}
	for _, w := range c19fonts() {
		f := c19parse(w)
		for _, o := range c19ops() {
			if o.need != nil && !o.need(w, f) {
				continue
			}
			if schedErr == nil {
				run("sched", sched, w.name, o.name)
			}
			run("race", race, w.name, o.name)
		}
	}
	real := c19real()
	if !e.Thorough {
		real = nil
	}
	for _, w := range real {
		f := c19parse(w)
		for _, o := range c19ops() {
			if o.need == nil || o.need(w, f) {
				run("race", race, w.name, o.name)
			}
		}
	}
	e.Wait()
}
