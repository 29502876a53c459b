package checks

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/golang/freetype/truetype"
	"github.com/tdewolff/font"
	xsfnt "golang.org/x/image/font/sfnt"

	"verifmc/core"
	"verifmc/ref"
)

// C07: a world of several live fonts, derived from each other by operations. The oracle is non-interference: after every history each live
// font must be the font that its own derivation gives when that derivation is made alone, on fresh copies of everything.

func init() {
	core.Register(&core.Check{ID: "C07", Run: c07,
		Rule: "exhaustive enumeration of histories of subset, merge, rename, write, WOFF2 write, query and reparse over several live fonts that share buffers and are derived from each other; after each history every live font is compared with its derivation made in isolation, and all arguments with their copies; exhaustive enumeration of containers and truncations for the decoders"})
}

// vTerm is how a font was made.
type vTerm struct {
	key string
	mk  func() (*font.SFNT, error) // makes it anew, from nothing shared
}

// vLeaf is a way to load a font from a buffer.
type vLeaf struct {
	name string
	buf  []byte
	load func(b []byte) (*font.SFNT, error)
}

func vParse(i int) func(b []byte) (*font.SFNT, error) {
	return func(b []byte) (*font.SFNT, error) { return font.ParseSFNT(b, i) }
}

func vTo(i int) func(b []byte) (*font.SFNT, error) {
	return func(b []byte) (*font.SFNT, error) {
		s, err := font.ToSFNT(b)
		if err != nil {
			return nil, err
		}
		return font.ParseSFNT(s, i)
	}
}

// vGuard copies with guard bytes in front, behind and in the spare capacity.
func vGuard(b []byte) (whole, part []byte) {
	whole = bytes.Repeat([]byte{0xA5}, len(b)+64)
	copy(whole[16:], b)
	return whole, whole[16 : 16+len(b)]
}

// vWorld is a start situation: buffers and fonts loaded from them.
type vWorld struct {
	name string
	bufs [][]byte
	load []struct {
		buf int
		fn  func(b []byte) (*font.SFNT, error)
	}
}

type vSlot struct {
	f    *font.SFNT
	term vTerm
}

type vLive struct {
	whole [][]byte // buffers with guards
	slots []vSlot
}

// vDigest is what can be observed of a font; queries come last or first.
func vDigest(f *font.SFNT) string {
	var sb strings.Builder
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(&sb, "panic %v", r)
			}
		}()
		sb.Write(maskFile(f.Write()))
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(&sb, "panic %v", r)
			}
		}()
		v := wQuery(f)
		sb.WriteString(v.Canon())
		for _, n := range wNames {
			fmt.Fprintf(&sb, "/%d", v.Find[n])
		}
	}()
	fmt.Fprintf(&sb, " %d tables", len(f.Tables))
	return sb.String()
}

// vIso remembers digests and errors of derivations made alone.
type vIso struct {
	mu sync.Mutex
	m  map[string][2]string
}

func (s *vIso) get(t vTerm) (digest, err string) {
	s.mu.Lock()
	r, ok := s.m[t.key]
	s.mu.Unlock()
	if ok {
		return r[0], r[1]
	}
	f, e := t.mk()
	if e != nil {
		r[1] = e.Error()
	}
	if f != nil {
		r[0] = vDigest(f)
	}
	s.mu.Lock()
	s.m[t.key] = r
	s.mu.Unlock()
	return r[0], r[1]
}

// vOp is a step of a history; j is only used by merge.
type vOp struct {
	kind, i, j, a, b int
}

const (
	vSub = iota
	vMerge
	vNames
	vWrite
	vWOFF2
	vQuery
	vReparse
)

func (o vOp) String() string {
	switch o.kind {
	case vSub:
		return fmt.Sprintf("subset of %d (%s, %s)", o.i, wLists(4)[o.a].name, wSels[o.b].name)
	case vMerge:
		return fmt.Sprintf("merge %d into %d (%d)", o.j, o.i, o.a)
	case vNames:
		return fmt.Sprintf("names of %d (%d)", o.i, o.a)
	case vWrite:
		return fmt.Sprintf("write %d", o.i)
	case vWOFF2:
		return fmt.Sprintf("write %d as WOFF2", o.i)
	case vQuery:
		return fmt.Sprintf("query %d", o.i)
	}
	return fmt.Sprintf("parse what %d writes", o.i)
}

// subset with spare capacity and guards; reports a change of the arguments
func vSubset(f *font.SFNT, li, si int) (*font.SFNT, error, string) {
	l := wLists(int(f.NumGlyphs()))[li].l
	if l == nil {
		return nil, errSkip, ""
	}
	spare := make([]uint16, len(l)+8)
	for i := range spare {
		spare[i] = 0xBEEF
	}
	copy(spare[2:], l)
	keep := append([]uint16{}, spare...)
	tab := make([]string, len(wSels[si].s)+3)
	for i := range tab {
		tab[i] = "????"
	}
	copy(tab[1:], wSels[si].s)
	keepTab := append([]string{}, tab...)
	g, err := f.Subset(spare[2:2+len(l)], font.SubsetOptions{Tables: tab[1 : 1+len(wSels[si].s)]})
	why := ""
	if fmt.Sprint(spare) != fmt.Sprint(keep) {
		why = fmt.Sprintf("glyph list with spare capacity was %v and is %v after the subset", keep, spare)
	} else if fmt.Sprint(tab) != fmt.Sprint(keepTab) {
		why = fmt.Sprintf("table list was %v and is %v after the subset", keepTab, tab)
	}
	return g, err, why
}

func vSetNames(f *font.SFNT, k int) (error, string) {
	n := int(f.NumGlyphs())
	var ns []string
	for i := 0; i < n; i++ {
		if k == 0 {
			ns = append(ns, fmt.Sprintf("n%d", i))
		} else {
			ns = append(ns, []string{".notdef", "A", "own", "x", "NULL"}[i%5])
		}
	}
	full := append(append([]string{}, ns...), "spare", "spare")
	err := f.SetGlyphNames(full[:n])
	for i := range full {
		if i < n && full[i] != ns[i] || i >= n && full[i] != "spare" {
			return err, fmt.Sprintf("names were %v and are %v after setting them", ns, full)
		}
	}
	return err, ""
}

// vScribble overwrites what a call returned; it is not the font's any more.
func vScribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0x5A
	}
}

// apply makes a step; it returns a reason when an argument changed, and false when the step does not apply.
func (l *vLive) apply(iso *vIso, o vOp) (ok bool, sig, why string) {
	if o.i >= len(l.slots) || o.j >= len(l.slots) {
		return false, "", ""
	}
	s := &l.slots[o.i]
	t := s.term
	check := func(nt vTerm, err error) (string, string) {
		_, want := iso.get(nt)
		got := ""
		if err != nil {
			got = err.Error()
		}
		if got != want {
			return "same call, other outcome", fmt.Sprintf("gives error %q, alone %q", got, want)
		}
		return "", ""
	}
	switch o.kind {
	case vSub:
		g, err, why := vSubset(s.f, o.a, o.b)
		if err == errSkip {
			return false, "", ""
		}
		if why != "" {
			return true, "argument changed", why
		}
		nt := vTerm{fmt.Sprintf("S(%d,%d,%s)", o.a, o.b, t.key), func() (*font.SFNT, error) {
			f, _ := t.mk()
			g, err, _ := vSubset(f, o.a, o.b)
			if err != nil {
				return nil, err
			}
			return g, nil
		}}
		if sig, why := check(nt, err); sig != "" {
			return true, sig, why
		}
		if err == nil {
			l.slots = append(l.slots, vSlot{g, nt})
		}
	case vMerge:
		if o.i == o.j {
			return false, "", ""
		}
		u := l.slots[o.j].term
		err := s.f.Merge(l.slots[o.j].f, font.MergeOptions{RearrangeCmap: o.a == 1})
		s.term = vTerm{fmt.Sprintf("M(%d,%s,%s)", o.a, t.key, u.key), func() (*font.SFNT, error) {
			f, _ := t.mk()
			g, _ := u.mk()
			return f, f.Merge(g, font.MergeOptions{RearrangeCmap: o.a == 1})
		}}
		if sig, why := check(s.term, err); sig != "" {
			return true, sig, why
		}
	case vNames:
		if s.f.Post == nil && !s.f.IsCFF {
			return false, "", ""
		}
		err, why := vSetNames(s.f, o.a)
		if why != "" {
			return true, "argument changed", why
		}
		s.term = vTerm{fmt.Sprintf("N(%d,%s)", o.a, t.key), func() (*font.SFNT, error) {
			f, _ := t.mk()
			err, _ := vSetNames(f, o.a)
			return f, err
		}}
		if sig, why := check(s.term, err); sig != "" {
			return true, sig, why
		}
	case vWrite:
		if len(s.f.Tables) == 0 {
			return false, "", ""
		}
		b := s.f.Write()
		x := maskFile(b)
		vScribble(b)
		if y := maskFile(s.f.Write()); !bytes.Equal(x, y) {
			return true, "second write differs", "writing the font again gives another file"
		}
	case vWOFF2:
		if s.f.Tables["head"] == nil || !wParsable(s.f) {
			return false, "", ""
		}
		b, err := s.f.WriteWOFF2()
		x := clone(b)
		vScribble(b)
		c, err2 := s.f.WriteWOFF2()
		if (err == nil) != (err2 == nil) {
			return true, "second write differs", fmt.Sprintf("writing as WOFF2 twice gives errors %v and %v", err, err2)
		}
		if err == nil {
			// modified time aside
			p, e1 := font.ParseWOFF2(x)
			q, e2 := font.ParseWOFF2(c)
			if e1 != nil || e2 != nil {
				return true, "second write differs", fmt.Sprintf("WOFF2 does not parse: %v, %v", e1, e2)
			}
			if !bytes.Equal(maskFile(p), maskFile(q)) {
				return true, "second write differs", "writing the font as WOFF2 again gives another file"
			}
		}
	case vQuery:
		a, b := wQuery(s.f), wQuery(s.f)
		if a.Canon() != b.Canon() {
			return true, "second query differs", "querying again gives other answers"
		}
	case vReparse:
		if len(s.f.Tables) == 0 || !wParsable(s.f) {
			return false, "", ""
		}
		re := func(f *font.SFNT) (*font.SFNT, error) { return wReparse(f.Write()) }
		g, err := re(s.f)
		nt := vTerm{"P(" + t.key + ")", func() (*font.SFNT, error) {
			f, _ := t.mk()
			return re(f)
		}}
		if sig, why := check(nt, err); sig != "" {
			return true, sig, why
		}
		if err == nil {
			l.slots = append(l.slots, vSlot{g, nt})
		}
	}
	return true, "", ""
}

func (w *vWorld) start() (*vLive, error) {
	l := &vLive{}
	var parts [][]byte
	for _, b := range w.bufs {
		wh, p := vGuard(b)
		l.whole = append(l.whole, wh)
		parts = append(parts, p)
	}
	for i, ld := range w.load {
		f, err := ld.fn(parts[ld.buf])
		if err != nil {
			return nil, fmt.Errorf("font %d: %w", i, err)
		}
		b := w.bufs[ld.buf]
		l.slots = append(l.slots, vSlot{f, vTerm{fmt.Sprintf("%s/%d", w.name, i), func() (*font.SFNT, error) {
			_, p := vGuard(b)
			return ld.fn(p)
		}}})
	}
	return l, nil
}

// verify compares everything that lives with what it must be.
func (l *vLive) verify(w *vWorld, iso *vIso) (sig, why string) {
	for k, wh := range l.whole {
		g, _ := vGuard(w.bufs[k])
		if i := firstDiff(wh, g); i >= 0 {
			return "font bytes changed", fmt.Sprintf("byte %d of buffer %d was %#x and is %#x", i-16, k, g[i], wh[i])
		}
	}
	for i, s := range l.slots {
		want, _ := iso.get(s.term)
		if got := vDigest(s.f); got != want {
			k := firstDiff([]byte(got), []byte(want))
			what := "file"
			if nul := strings.LastIndexByte(want, 0); k > nul {
				what = "answers"
			}
			lo := max(0, k-30)
			return "font changed", fmt.Sprintf("%s of font %d = %s differ from those of the same font made alone, at %d: %q and %q", what, i, s.term.key, k, got[lo:min(len(got), k+30)], want[lo:min(len(want), k+30)])
		}
	}
	return "", ""
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	return -1
}

// alphabet for n live fonts; small leaves only the most entangling steps.
func vOps(n int, small bool) (out []vOp) {
	lists, sels := []int{1, 3, 5, 6}, []int{0, 1, 4}
	if small {
		lists, sels = []int{3}, []int{0, 4}
	}
	for i := 0; i < n; i++ {
		for _, a := range lists {
			for _, b := range sels {
				out = append(out, vOp{vSub, i, 0, a, b})
			}
		}
		for j := 0; j < n; j++ {
			if i != j {
				out = append(out, vOp{vMerge, i, j, 1, 0})
				if !small {
					out = append(out, vOp{vMerge, i, j, 0, 0})
				}
			}
		}
		out = append(out, vOp{vNames, i, 0, 1, 0}, vOp{vWrite, i, 0, 0, 0})
		if !small {
			out = append(out, vOp{vNames, i, 0, 0, 0}, vOp{vWOFF2, i, 0, 0, 0}, vOp{vQuery, i, 0, 0, 0}, vOp{vReparse, i, 0, 0, 0})
		}
	}
	return
}

func vHistory(h []vOp) string {
	var s []string
	for _, o := range h {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// vExplore runs all continuations of a history up to the depth.
func vExplore(t *core.T, w *vWorld, iso *vIso, h []vOp, depth int, small func(level int) bool) {
	l, err := w.start()
	if err != nil {
		t.Fail("start", "%s: %v", w.name, err)
		return
	}
	for k, o := range h {
		t.Trans(1)
		ok, sig, why := l.apply(iso, o)
		if !ok {
			return
		}
		if sig != "" {
			t.Fail(sig, "%s: %s: step %d %s", w.name, vHistory(h), k, why)
			return
		}
	}
	if sig, why := l.verify(w, iso); sig != "" {
		t.Fail(sig, "%s: after %q %s", w.name, vHistory(h), why)
		return
	}
	t.Trace()
	var keys []string
	for _, s := range l.slots {
		keys = append(keys, s.term.key)
	}
	t.State(w.name + strings.Join(keys, "&"))
	if depth == 0 {
		return
	}
	n := len(l.slots)
	l = nil
	for _, o := range vOps(n, small(len(h))) {
		vExplore(t, w, iso, append(h[:len(h):len(h)], o), depth-1, small)
	}
}

func c07(e *core.Env) {
	roots := wFonts()
	by := map[string]wRoot{}
	for _, r := range roots {
		by[r.name] = r
	}
	type ld = struct {
		buf int
		fn  func(b []byte) (*font.SFNT, error)
	}
	var worlds []*vWorld
	same := func(a, b string) {
		worlds = append(worlds, &vWorld{name: a + "+" + b, bufs: [][]byte{by[a].b, by[b].b}, load: []ld{{0, vParse(0)}, {0, vParse(0)}, {1, vParse(0)}}})
	}
	same("full", "kern")
	same("kern", "supplementary")
	same("supplementary", "one glyph")
	same("full CFF", "CFF")
	same("CID", "CFF")
	same("CFF", "CID")
	same("CID one dict", "full CFF")
	same("kern", "full")

	wrapEOT := func(b []byte, xor bool) []byte {
		return ref.BuildEOT(b, ref.EOTOpts{Version: 0x00020001, XOR: xor, Strings: [4]int{4, 4, 4, 4}})
	}
	wrapWOFF := func(b []byte, comp bool) []byte {
		tb := rawTables(b)
		return ref.BuildWOFF(string(b[:4]), tb, ref.WOFFOpts{Compress: func(string) bool { return comp }, Level: 9})
	}
	for _, n := range []string{"kern", "CFF"} {
		b := by[n].b
		tt := ref.BuildTTC([]ref.Member{{Version: string(b[:4]), Tables: rawTables(b)}, {Version: string(b[:4]), Tables: rawTables(b)}}, []int{0, 1}, true, 1)
		worlds = append(worlds,
			&vWorld{name: n + " EOT", bufs: [][]byte{wrapEOT(b, true), wrapEOT(b, false)}, load: []ld{{0, vTo(0)}, {0, vTo(0)}, {1, vTo(0)}}},
			&vWorld{name: n + " WOFF", bufs: [][]byte{wrapWOFF(b, false), wrapWOFF(b, true)}, load: []ld{{0, vTo(0)}, {0, vTo(0)}, {1, vTo(0)}}},
			&vWorld{name: n + " collection", bufs: [][]byte{tt}, load: []ld{{0, vParse(0)}, {0, vParse(1)}, {0, vParse(1)}}})
	}

	long := 2
	if e.Thorough {
		long = 3
	}
	for _, w := range worlds {
		iso := &vIso{m: map[string][2]string{}}
		first := vOps(3, false)
		for lo := 0; lo < len(first); lo += 4 {
			hi := min(lo+4, len(first))
			e.Case(fmt.Sprintf("histories/%s/%d", w.name, lo), func(t *core.T) {
				for _, o := range first[lo:hi] {
					// everything to the full alphabet, and one step more with the small one
					vExplore(t, w, iso, []vOp{o}, 1, func(int) bool { return false })
				}
			})
		}
		smallFirst := vOps(3, true)
		for k, o := range smallFirst {
			e.Case(fmt.Sprintf("long histories/%s/%d", w.name, k), func(t *core.T) {
				vExplore(t, w, iso, []vOp{o}, long, func(int) bool { return true })
			})
		}
	}

	// decoders
	type dec struct {
		name string
		fn   func(b []byte) (string, error)
	}
	parsed := func(f *font.SFNT, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return vDigest(f), nil
	}
	decs := []dec{
		{"MediaType", func(b []byte) (string, error) { return font.MediaType(b) }},
		{"Extension", func(b []byte) (string, error) { return font.Extension(b), nil }},
		{"ToSFNT", func(b []byte) (string, error) { s, err := font.ToSFNT(b); return string(s), err }},
		{"NewSFNTReader", func(b []byte) (string, error) {
			r, err := font.NewSFNTReader(bytes.NewReader(b))
			if err != nil {
				return "", err
			}
			return fmt.Sprint(r.Len()), nil
		}},
		{"ParseWOFF", func(b []byte) (string, error) { s, err := font.ParseWOFF(b); return string(s), err }},
		{"ParseWOFF2", func(b []byte) (string, error) { s, err := font.ParseWOFF2(b); return string(s), err }},
		{"ParseEOT", func(b []byte) (string, error) { s, err := font.ParseEOT(b); return string(s), err }},
		{"ParseSFNT", func(b []byte) (string, error) { return parsed(font.ParseSFNT(b, 0)) }},
		{"ParseSFNT 1", func(b []byte) (string, error) { return parsed(font.ParseSFNT(b, 1)) }},
		{"ParseEmbeddedSFNT", func(b []byte) (string, error) { return parsed(font.ParseEmbeddedSFNT(b, 0)) }},
		{"ToSFNT and ParseSFNT", func(b []byte) (string, error) { return parsed(vTo(0)(b)) }},
		{"FromGoFreetype", func(b []byte) (string, error) {
			f, err := truetype.Parse(b)
			if err != nil {
				return "", fmt.Errorf("other library: %w", err)
			}
			x := string(font.FromGoFreetype(f))
			if y := string(font.FromGoFreetype(f)); x != y {
				return x, fmt.Errorf("second conversion differs")
			}
			return x, nil
		}},
		{"FromGoSFNT", func(b []byte) (string, error) {
			f, err := xsfnt.Parse(b)
			if err != nil {
				return "", fmt.Errorf("other library: %w", err)
			}
			return string(font.FromGoSFNT(f)), nil
		}},
		{"ParseAFM", func(b []byte) (string, error) {
			a, err := font.ParseAFM(b)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(a.NumGlyphs()), nil
		}},
	}
	type input struct {
		name string
		b    []byte
	}
	var ins []input
	add := func(n string, b []byte) { ins = append(ins, input{n, b}) }
	for _, r := range roots {
		add(r.name, r.b)
		for _, comp := range []bool{false, true} {
			add(fmt.Sprintf("WOFF %v %s", comp, r.name), wrapWOFF(r.b, comp))
			add(fmt.Sprintf("EOT %v %s", comp, r.name), wrapEOT(r.b, comp))
		}
		if f, err := font.ParseSFNT(clone(r.b), 0); err == nil {
			if w, err := f.WriteWOFF2(); err == nil {
				add("WOFF2 "+r.name, w)
			}
		}
		if rf, err := ref.ReadFont(r.b); err == nil {
			_ = rf
			add("WOFF2 untransformed "+r.name, ref.BuildWOFF2(string(r.b[:4]), rawTables(r.b), ref.W2Opts{LocaLong: -1}))
		}
		// tables of length divisible by four need no padding
		tb := rawTables(r.b)
		for tag, x := range tb {
			for len(x)%4 != 0 {
				x = append(x[:len(x):len(x)], 0)
			}
			tb[tag] = x
		}
		fat := ref.BuildSFNT(string(r.b[:4]), tb)
		add("padded "+r.name, fat)
		add("WOFF padded "+r.name, wrapWOFF(fat, false))
		add("collection "+r.name, ref.BuildTTC([]ref.Member{{Version: string(r.b[:4]), Tables: rawTables(r.b)}, {Version: string(r.b[:4]), Tables: tb}}, []int{0, 1}, true, 2))
	}
	ins = append(ins, input{"AFM", resource("resources/pdfcorefonts/Helvetica.afm")[:4000]})
	for _, in := range ins {
		e.Case("decoders/"+in.name, func(t *core.T) {
			for _, d := range decs {
				call := func(b []byte) (out, err string) {
					defer func() {
						if r := recover(); r != nil {
							err = fmt.Sprint("panic ", r) // whether it may panic is decided elsewhere
						}
					}()
					o, e := d.fn(b)
					if e != nil {
						return o, e.Error()
					}
					return o, ""
				}
				one := func(b []byte, what string) {
					whole, part := vGuard(b)
					g, _ := vGuard(b)
					o1, e1 := call(part)
					t.Trans(1)
					if i := firstDiff(whole, g); i >= 0 {
						t.Fail(d.name+": input changed", "%s, %s: %s changes byte %d of its input from %#x to %#x", in.name, what, d.name, i-16, g[i], whole[i])
						return
					}
					o2, e2 := call(part)
					if o1 != o2 || e1 != e2 {
						t.Fail(d.name+": second call differs", "%s, %s: %s gives %d bytes, error %q the first and %d bytes, error %q the second time", in.name, what, d.name, len(o1), e1, len(o2), e2)
						return
					}
					if e1 == "second conversion differs" {
						t.Fail(d.name+": second call differs", "%s, %s: %s of the same font gives another result the second time", in.name, what, d.name)
						return
					}
					t.State(d.name + "|" + e1 + "|" + clip([]byte(o1)))
					t.Trace()
				}
				one(in.b, "whole")
				step := 1
				if !e.Thorough {
					step = 7
				}
				for n := 0; n < len(in.b); n += step {
					one(in.b[:n], fmt.Sprintf("first %d bytes", n))
				}
			}
		})
	}
	e.Wait()
}
