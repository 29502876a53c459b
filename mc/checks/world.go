package checks

import (
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

// The world of operation sequences: a state is a font in memory, operations are subset, merge, rename, container round trips and queries.
// States are identified by a hash of everything reachable from the font, unexported fields and caches included.

type wRoot struct {
	name string
	b    []byte
	cff  bool
}

func wShift(f *ref.Font, d rune) *ref.Font {
	for k, s := range f.Subs {
		m := map[rune]uint16{}
		for r, g := range s.Map {
			m[r+d] = g
		}
		f.Subs[k].Map = m
	}
	return f
}

// wFonts are the SFNT files operations start from.
func wFonts() (out []wRoot) {
	add := func(name string, f *ref.Font) {
		out = append(out, wRoot{name, f.SFNT(), f.CFF})
	}
	add("full", c06full(false))

	f := ttFont(plain(4))
	f.Glyphs[3] = ref.Glyph{Comps: []ref.Component{{GID: 2, Dx: 3}, {GID: 1, Dy: -9}}, Instr: []byte{1, 2, 3}, HasInstr: true}
	f.LongLoca = true
	f.NHM = 2
	f.Adv[2], f.Adv[3] = f.Adv[1], f.Adv[1]
	f.NoOS2 = true
	f.Kern = []ref.KernSub{{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: 9}, {L: 2, R: 2, V: 1}}}, {Coverage: 3, Pairs: []ref.KernPair{{L: 1, R: 2, V: 3}, {L: 3, R: 1, V: -4}}}}
	f.Extra = map[string][]byte{"cvt ": {0, 1}, "prep": {9, 9, 9}}
	add("kern", wShift(f, 0x100))

	f = ttFont([]ref.Glyph{{}, {Contours: [][]ref.Point{sq(3, 4, 5)}, Instr: []byte{7}, HasInstr: true}, {}})
	f.PostVer = 1
	f.Subs, f.Recs = cmap12(map[rune]uint16{0x10400: 1, 0x10401: 2, 0x300: 1})
	f.OS2 = &ref.OS2{Version: 1, Weight: 400, Range: [4]uint32{0, 2, 0, 4}, TypoAsc: 600, TypoDesc: -100, TypoGap: 9, WinAsc: 800, WinDesc: 300}
	add("supplementary", f)

	f = ttFont([]ref.Glyph{{Contours: [][]ref.Point{sq(0, 0, 50)}}})
	f.PostVer, f.Names = 2, []string{"nothing"}
	add("one glyph", f)

	f = c06full(true)
	f.C.Local, f.C.Global = [][]byte{{11}, ref.CS(3, 4, "rlineto", "return")}, [][]byte{ref.CS(6, 4, "rlineto", -106, "callsubr", "return"), {11}, {11}}
	f.Glyphs[2].CS = ref.CS(1, 1, "rmoveto", -106, "callsubr", "endchar")
	f.Glyphs[4].CS = ref.CS(1, 7, "rmoveto", -107, "callgsubr", "endchar")
	f.C.Charset = []string{".notdef", "A", "own", "C", "x", "y"}
	add("full CFF", f)

	f = cffSrcFont([][]byte{{14}, ref.CS(1, 2, "rmoveto", -107, "callsubr", "endchar"), ref.CS(5, 2, "rmoveto", -107, "callgsubr", "endchar"), ref.CS(1, 2, "rmoveto", 4, "hlineto", "endchar")},
		ref.CFFInfo{Local: [][]byte{ref.CS(8, 9, "rlineto", "return")}, Global: [][]byte{ref.CS(6, 9, "rlineto", -107, "callsubr", "return")}, Charset: []string{".notdef", "space", "own", "zz"}})
	f.OS2 = &ref.OS2{Version: 4, Weight: 400, TypoAsc: 600, TypoDesc: -100, WinAsc: 800, WinDesc: 300}
	add("CFF", wShift(f, 0x200))

	f = cffSrcFont([][]byte{{14}, ref.CS(1, 2, "rmoveto", -107, "callsubr", "endchar"), ref.CS(1, 2, "rmoveto", 4, "hlineto", "endchar")},
		ref.CFFInfo{CID: true, FDSelect: []byte{0, 1, 0}, FDFormat: 3, FDLocal: [][][]byte{{ref.CS(1, 6, "rlineto", "return")}, {ref.CS(2, 6, "rlineto", "return")}}})
	add("CID", wShift(f, 0x300))

	f = cffSrcFont([][]byte{{14}, ref.CS(1, 2, "rmoveto", 4, "hlineto", "endchar"), ref.CS(1, 3, "rmoveto", 4, "hlineto", "endchar")},
		ref.CFFInfo{CID: true, FDSelect: []byte{0, 0, 0}, FDLocal: [][][]byte{{ref.CS(1, 6, "rlineto", "return")}}})
	f.NoOS2 = true
	add("CID one dict", wShift(f, 0x700))
	return
}

// wOp is an operation on a font.
type wOp struct {
	name string
	// changes the font or returns another; on error the given font stays
	fn func(f *font.SFNT) (*font.SFNT, error)
}

var wSels = []struct {
	name string
	s    []string
}{
	{"all", font.KeepAllTables}, {"min", font.KeepMinTables}, {"pdf", font.KeepPDFTables},
	{"outlines", []string{"glyf", "loca", "CFF ", "head", "maxp", "hhea", "hmtx", "cmap"}},
	{"nearly all", []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "post", "OS/2", "kern", "vhea", "vmtx", "CFF ", "glyf", "loca", "ZZZZ"}},
	{"no metrics", []string{"cmap", "post", "glyf", "loca", "CFF ", "head", "maxp"}},
	{"unusable", []string{"post", "kern", "name"}},
}

func wLists(n int) []struct {
	name string
	l    []uint16
} {
	type nl = struct {
		name string
		l    []uint16
	}
	out := []nl{{"0", []uint16{0}}}
	if n > 1 {
		out = append(out, nl{"0 last", []uint16{0, uint16(n - 1)}})
		rev := []uint16{0}
		for i := n - 1; i > 0; i-- {
			rev = append(rev, uint16(i))
		}
		out = append(out, nl{"reversed", rev})
	} else {
		out = append(out, nl{"0 last", nil}, nl{"reversed", nil})
	}
	if n > 3 {
		odd := []uint16{0}
		for i := 1; i < n; i += 2 {
			odd = append(odd, uint16(i))
		}
		out = append(out, nl{"odd", odd}, nl{"0 2 1", []uint16{0, 2, 1}})
	} else {
		out = append(out, nl{"odd", nil}, nl{"0 2 1", nil})
	}
	if n > 2 {
		out = append(out, nl{"not first", []uint16{2, 1}})
	} else {
		out = append(out, nl{"not first", nil})
	}
	all := make([]uint16, n)
	for i := range all {
		all[i] = uint16(i)
	}
	return append(out, nl{"in order", all})
}

var errSkip = fmt.Errorf("skipped")

// wQuery asks everything.
func wQuery(f *font.SFNT) *sut.View {
	return sut.Observe(f, sut.Opt{Runes: wProbes, Names: wNames})
}

var wProbes = func() (out []rune) {
	for _, b := range []rune{0x20, 0x40, 0x100, 0x140, 0x240, 0x300, 0x340, 0x400, 0x740} {
		for i := rune(0); i < 14; i++ {
			out = append(out, b+i)
		}
	}
	return append(out, 0, 31, 0x103FF, 0x10400, 0x10401, 0x10402, 0x10FFFF)
}()

var wNames = []string{".notdef", "A", "B", "C", "a", "b", "c", "d", "e", "own", "x", "y", "zz", "space", "exclam", "", "nothing", "n1", "n2", "n3", "n9", "NULL", ".null", "CR", "nonmarkingreturn"}

// wOps is the alphabet; other fonts are parsed from the roots.
func wOps(roots []wRoot) (out []wOp) {
	add := func(name string, fn func(f *font.SFNT) (*font.SFNT, error)) {
		out = append(out, wOp{name, fn})
	}
	for li, l := range wLists(4) {
		for _, s := range wSels {
			add("subset "+l.name+" "+s.name, func(f *font.SFNT) (*font.SFNT, error) {
				ids := wLists(int(f.NumGlyphs()))[li].l
				if ids == nil {
					return f, errSkip
				}
				return f.Subset(append([]uint16{}, ids...), font.SubsetOptions{Tables: append([]string{}, s.s...)})
			})
		}
	}
	for _, r := range roots {
		for _, re := range []bool{false, true} {
			nm := "merge " + r.name
			if re {
				nm += " rearranged"
			}
			add(nm, func(f *font.SFNT) (*font.SFNT, error) {
				g, err := font.ParseSFNT(clone(r.b), 0)
				if err != nil {
					return f, err
				}
				return f, f.Merge(g, font.MergeOptions{RearrangeCmap: re})
			})
		}
	}
	for k, nm := range []string{"nil", "own", "mixed", "too many"} {
		add("names "+nm, func(f *font.SFNT) (*font.SFNT, error) {
			n := int(f.NumGlyphs())
			if f.Post == nil && !f.IsCFF {
				return f, errSkip
			}
			var ns []string
			for i := 0; i < n; i++ {
				switch k {
				case 1:
					ns = append(ns, fmt.Sprintf("n%d", i))
				case 2:
					ns = append(ns, []string{".notdef", "A", "x", "x", "NULL"}[i%5])
				case 3:
					ns = append(ns, "x")
				}
			}
			if k == 3 {
				ns = append(ns, "more")
			}
			return f, f.SetGlyphNames(ns)
		})
	}
	add("write and parse", func(f *font.SFNT) (*font.SFNT, error) {
		if !wParsable(f) {
			return f, errSkip
		}
		g, err := wReparse(f.Write())
		if err != nil {
			return f, fmt.Errorf("written font does not parse: %w", err)
		}
		return g, nil
	})
	add("WOFF2", func(f *font.SFNT) (*font.SFNT, error) {
		if !wParsable(f) || f.Tables["head"] == nil {
			return f, errSkip
		}
		b, err := f.WriteWOFF2()
		if err != nil {
			return f, fmt.Errorf("WOFF2 writing fails: %w", err)
		}
		if b, err = font.ParseWOFF2(b); err != nil {
			return f, fmt.Errorf("WOFF2 does not parse: %w", err)
		}
		g, err := wReparse(b)
		if err != nil {
			return f, fmt.Errorf("WOFF2 font does not parse: %w", err)
		}
		return g, nil
	})
	add("query", func(f *font.SFNT) (*font.SFNT, error) {
		wQuery(f)
		return f, nil
	})
	add("find name", func(f *font.SFNT) (*font.SFNT, error) {
		if f.IsCFF || f.Post != nil {
			f.FindGlyphName("x")
		}
		f.GlyphToUnicode(1)
		return f, nil
	})
	return
}

func has(f *font.SFNT, tags ...string) bool {
	for _, t := range tags {
		if _, ok := f.Tables[t]; !ok {
			return false
		}
	}
	return true
}

// wParsable tells whether all tables that parsing requires are there.
func wParsable(f *font.SFNT) bool {
	if has(f, "vhea") != has(f, "vmtx") {
		return false
	}
	if f.IsCFF {
		return has(f, "cmap", "CFF ")
	}
	return has(f, "glyf", "head", "hhea", "hmtx", "loca", "maxp")
}

// wReparse parses a file as full font when it has all required tables and as embedded font otherwise.
func wReparse(b []byte) (*font.SFNT, error) {
	tb := rawTables(b)
	full := true
	for _, t := range []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "post"} {
		_, ok := tb[t]
		full = full && ok
	}
	if full {
		return font.ParseSFNT(clone(b), 0)
	}
	return font.ParseEmbeddedSFNT(clone(b), 0)
}

// wHash hashes everything reachable from the font, except what depends on the time.
type wHash struct {
	h    maphash.Hash
	skip int
	path map[unsafe.Pointer]bool // pointers being followed
	full bool                    // include what is between the length and the capacity of slices
}

var wSeed = maphash.MakeSeed()

func wState(f *font.SFNT) uint64 {
	w := &wHash{}
	w.h.SetSeed(wSeed)
	w.walk(reflect.ValueOf(f).Elem(), "")
	return w.h.Sum64()
}

func (w *wHash) u(v uint64) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	w.h.Write(b[:])
}

func (w *wHash) walk(v reflect.Value, field string) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w.u(1)
		} else {
			w.u(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.u(v.Uint())
	case reflect.Float32, reflect.Float64:
		w.u(math.Float64bits(v.Float()))
	case reflect.String:
		w.u(uint64(v.Len()))
		w.h.WriteString(v.String())
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			w.u(0)
			return
		}
		w.u(7)
		if v.Kind() == reflect.Interface {
			w.h.WriteString(v.Elem().Type().String())
		}
		if v.Kind() == reflect.Pointer {
			p := v.UnsafePointer()
			if w.path[p] {
				w.u(8)
				return
			} else if w.path == nil {
				w.path = map[unsafe.Pointer]bool{}
			}
			w.path[p] = true
			defer delete(w.path, p)
		}
		w.walk(v.Elem(), field)
	case reflect.Slice:
		if v.IsNil() {
			w.u(9)
			return
		}
		if w.full {
			w.u(uint64(v.Len()))
			v = v.Slice(0, v.Cap())
		}
		w.u(uint64(v.Len()) + 10)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			w.h.Write(v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), "")
		}
	case reflect.Map:
		if v.IsNil() {
			w.u(9)
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool {
			switch keys[i].Kind() {
			case reflect.String:
				return keys[i].String() < keys[j].String()
			case reflect.Uint16, reflect.Uint32, reflect.Uint8, reflect.Uint64, reflect.Uint:
				return keys[i].Uint() < keys[j].Uint()
			case reflect.Int32, reflect.Int, reflect.Int64:
				return keys[i].Int() < keys[j].Int()
			}
			return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
		})
		w.u(uint64(len(keys)) + 10)
		for _, k := range keys {
			w.walk(k, "")
			e := v.MapIndex(k)
			if k.Kind() == reflect.String && k.String() == "head" && e.Kind() == reflect.Slice && e.Len() >= 36 {
				b := clone(e.Bytes())
				copy(b[8:], make([]byte, 4))
				copy(b[28:], make([]byte, 8))
				w.h.Write(b)
				continue
			}
			w.walk(e, "")
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			n := t.Field(i).Name
			if n == "Modified" || n == "CheckSumAdjustment" || n == "ChecksumAdjustment" {
				continue
			}
			w.walk(v.Field(i), n)
		}
	}
}

// fieldDiff compares the exported fields of two values and names the first that differs.
func fieldDiff(a, b reflect.Value, path string, skip map[string]bool) string {
	if a.Kind() != b.Kind() {
		return path
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path
			}
			return ""
		}
		return fieldDiff(a.Elem(), b.Elem(), path, skip)
	case reflect.Struct:
		if t, ok := a.Interface().(time.Time); ok {
			if u := b.Interface().(time.Time); !t.Equal(u) {
				return fmt.Sprintf("%s: %v and %v", path, t, u)
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if !f.IsExported() || skip[f.Name] {
				continue
			}
			if d := fieldDiff(a.Field(i), b.Field(i), path+"."+f.Name, skip); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := fieldDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), skip); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return path
		}
		return ""
	case reflect.Func, reflect.Chan:
		return ""
	}
	if x, y := a.Interface(), b.Interface(); x != y {
		return fmt.Sprintf("%s: %v and %v", path, x, y)
	}
	return ""
}

// wNode is a state with the operations that lead to it.
type wNode struct {
	ops []int
}

// explore visits all states reachable from the root by at most depth operations, of which the first are given; at every new state visit
// gets the font, freshly made, and a description. Operations of the last level may be restricted.
func explore(t *core.T, root wRoot, ops []wOp, first []int, depth int, last func(i int) bool, visit func(desc string, mk func() *font.SFNT) bool) {
	seen := map[uint64]bool{}
	run := func(seq []int) (*font.SFNT, error) {
		f, err := font.ParseSFNT(clone(root.b), 0)
		if err != nil {
			t.Fail("parse", "%s: %v", root.name, err)
			return nil, err
		}
		for _, i := range seq {
			t.Trans(1)
			g, err2 := ops[i].fn(f)
			err = err2
			if err == nil {
				f = g
			}
		}
		return f, err
	}
	desc := func(seq []int) string {
		s := root.name
		for _, i := range seq {
			s += ", " + ops[i].name
		}
		return s
	}
	level := []wNode{{nil}}
	if first != nil {
		level = []wNode{{first}}
		depth -= len(first)
	}
	handle := func(n wNode) bool {
		f, err := run(n.ops)
		if f == nil {
			return false
		}
		if err == errSkip {
			return false
		}
		if err != nil && (strings.Contains(err.Error(), "WOFF2") || strings.Contains(err.Error(), "not parse")) {
			t.Fail("operation fails", "%s: %v", desc(n.ops), err)
			return false
		}
		h := wState(f)
		if seen[h] {
			return false
		}
		seen[h] = true
		t.State(fmt.Sprintf("%s/%x", root.name, h))
		if !visit(desc(n.ops), func() *font.SFNT { f, _ := run(n.ops); return f }) {
			return false
		}
		t.Trace()
		return true
	}
	var next []wNode
	for _, n := range level {
		if !handle(n) {
			return
		}
	}
	for d := 0; d < depth; d++ {
		next = nil
		for _, n := range level {
			for i := range ops {
				if d == depth-1 && last != nil && !last(i) {
					continue
				}
				c := wNode{append(append([]int{}, n.ops...), i)}
				if handle(c) {
					next = append(next, c)
				}
			}
		}
		level = next
	}
}
