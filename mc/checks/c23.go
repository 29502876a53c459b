package checks

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Check{
		ID:  "C23",
		Run: c23,
		Rule: "name tables with every order, sharing and overlap of up to four records, every text of every encoding, and CFF dictionaries with every operator, every number encoding and every ordered pair of operators are " +
			"written into font bytes by an independent encoder; the reported records, texts and dictionary values are compared with those encoded, in the font itself and, read by an independent reader, in the files written after renaming, subsetting and merging",
		Assumptions: []string{
			"records of the Unicode and Windows platforms are UTF-16BE, those of the Macintosh platform with encoding 0 are Mac OS Roman (with the euro sign), others are reported as their bytes; texts that are not well-formed in their encoding are outside the explored space",
			"operators with integer operands are explored with integers only; delta-encoded arrays are reported as the deltas",
		},
	})
}

var macRomanHigh = []rune("\u00c4\u00c5\u00c7\u00c9\u00d1\u00d6\u00dc\u00e1\u00e0\u00e2\u00e4\u00e3\u00e5\u00e7\u00e9\u00e8\u00ea\u00eb\u00ed\u00ec\u00ee\u00ef\u00f1\u00f3\u00f2\u00f4\u00f6\u00f5\u00fa\u00f9\u00fb\u00fc" +
	"\u2020\u00b0\u00a2\u00a3\u00a7\u2022\u00b6\u00df\u00ae\u00a9\u2122\u00b4\u00a8\u2260\u00c6\u00d8\u221e\u00b1\u2264\u2265\u00a5\u00b5\u2202\u2211\u220f\u03c0\u222b\u00aa\u00ba\u03a9\u00e6\u00f8" +
	"\u00bf\u00a1\u00ac\u221a\u0192\u2248\u2206\u00ab\u00bb\u2026\u00a0\u00c0\u00c3\u00d5\u0152\u0153\u2013\u2014\u201c\u201d\u2018\u2019\u00f7\u25ca\u00ff\u0178\u2044\u20ac\u2039\u203a\ufb01\ufb02" +
	"\u2021\u00b7\u201a\u201e\u2030\u00c2\u00ca\u00c1\u00cb\u00c8\u00cd\u00ce\u00cf\u00cc\u00d3\u00d4\uf8ff\u00d2\u00da\u00db\u00d9\u0131\u02c6\u02dc\u00af\u02d8\u02d9\u02da\u00b8\u02dd\u02db\u02c7")

// nRec is a record of a name table with its place in the storage.
type nRec struct {
	plat, enc, lang, name int
	off, length           int
}

func nameTable(recs []nRec, tags [][2]int, version int, storage []byte) []byte {
	w := &ref.W{}
	hdr := 6 + 12*len(recs)
	if version == 1 {
		hdr += 2 + 4*len(tags)
	}
	w.U16(version, len(recs), hdr)
	for _, r := range recs {
		w.U16(r.plat, r.enc, r.lang, r.name, r.length, r.off)
	}
	if version == 1 {
		w.U16(len(tags))
		for _, g := range tags {
			w.U16(g[1], g[0])
		}
	}
	w.Bytes(storage)
	return w.B
}

func c23Font(table []byte) []byte {
	f := &ref.Font{Glyphs: plain(2), Extra: map[string][]byte{"name": table}}
	f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1})
	return f.SFNT()
}

// wantText is the text of a well-formed value.
func wantText(plat, enc int, b []byte) string {
	if plat == 0 || plat == 3 {
		var rs []rune
		for i := 0; i+1 < len(b); i += 2 {
			u := rune(b[i])<<8 | rune(b[i+1])
			if 0xD800 <= u && u < 0xDC00 && i+3 < len(b) {
				lo := rune(b[i+2])<<8 | rune(b[i+3])
				u = 0x10000 + (u-0xD800)<<10 + lo - 0xDC00
				i += 2
			}
			rs = append(rs, u)
		}
		return string(rs)
	}
	if plat == 1 && enc == 0 {
		var rs []rune
		for _, c := range b {
			if c < 0x80 {
				rs = append(rs, rune(c))
			} else {
				rs = append(rs, macRomanHigh[c-0x80])
			}
		}
		return string(rs)
	}
	return string(b)
}

// nameCheck parses the font and compares every record, tag, and text. Texts are compared when text is set.
func nameCheck(t *core.T, desc string, recs []nRec, tags [][2]int, version int, storage []byte, text bool) bool {
	f, err := font.ParseSFNT(c23Font(nameTable(recs, tags, version, storage)), 0)
	t.Trans(1)
	if err != nil {
		t.Fail("rejected", "%s: %v", desc, err)
		return false
	}
	ok := true
	fail := func(sig, format string, a ...any) {
		ok = false
		t.Fail(sig, desc+": "+format, a...)
	}
	if len(f.Name.NameRecord) != len(recs) || len(f.Name.LangTag) != len(tags) {
		fail("count", "%d records and %d tags, stored %d and %d", len(f.Name.NameRecord), len(f.Name.LangTag), len(recs), len(tags))
		return false
	}
	byName := map[int][]int{-1: nil}
	for i, r := range recs {
		byName[r.name] = append(byName[r.name], i)
		g := f.Name.NameRecord[i]
		v := storage[r.off : r.off+r.length]
		if int(g.Platform) != r.plat || int(g.Encoding) != r.enc || int(g.Language) != r.lang || int(g.Name) != r.name || string(g.Value) != string(v) {
			fail("record", "record %d is %d %d %d %d %q, stored %d %d %d %d %q", i, g.Platform, g.Encoding, g.Language, g.Name, g.Value, r.plat, r.enc, r.lang, r.name, v)
		}
		if text {
			if a, b := g.String(), wantText(r.plat, r.enc, v); a != b {
				fail("text", "record %d (platform %d, encoding %d) % X reads %+q, is %+q", i, r.plat, r.enc, clip24(v), a, b)
			}
		}
	}
	for i, g := range tags {
		v := storage[g[0] : g[0]+g[1]]
		if string(f.Name.LangTag[i].Value) != string(v) {
			fail("tag", "language tag %d is %q, stored %q", i, f.Name.LangTag[i].Value, v)
		} else if a, b := f.Name.LangTag[i].String(), wantText(0, 0, v); text && a != b {
			fail("tag text", "language tag %d % X reads %+q, is %+q", i, clip24(v), a, b)
		}
	}
	ids := []int{0, 1, 2, 25, 255, 256, 0x7FFF, 0xFFFF}
	for id := range byName {
		ids = append(ids, id, id+1, id-1)
	}
	for _, id := range ids {
		if id < 0 || 0xFFFF < id {
			continue
		}
		got := f.Name.Get(font.NameID(id))
		want := byName[id]
		if len(got) != len(want) {
			fail("get", "%d records of name %d, stored %d", len(got), id, len(want))
			continue
		}
		for k, i := range want {
			r := recs[i]
			if int(got[k].Platform) != r.plat || int(got[k].Encoding) != r.enc || int(got[k].Language) != r.lang || int(got[k].Name) != id || string(got[k].Value) != string(storage[r.off:r.off+r.length]) {
				fail("get", "item %d of name %d is %+v, stored %+v", k, id, got[k], r)
			}
		}
	}
	return ok
}

func clip24(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

func c23(e *core.Env) {
	// fields of one record, next to two others
	for fi, field := range []string{"platform", "encoding", "language", "name"} {
		e.Case("name/field/"+field, func(t *core.T) {
			var vals []int
			for v := 0; v < 300; v++ {
				vals = append(vals, v)
			}
			for k := 0; k < 16; k++ {
				vals = append(vals, 1<<k, 1<<k-1, 0xFFFF^1<<k)
			}
			if e.Thorough {
				vals = nil
				for v := 0; v < 0x10000; v++ {
					vals = append(vals, v)
				}
			}
			storage := []byte("\x00A\x00B\x00C")
			for _, v := range vals {
				for pos := 0; pos < 3; pos++ {
					recs := []nRec{{0, 3, 0, 1, 0, 2}, {1, 0, 0, 1, 1, 3}, {3, 1, 0x409, 4, 2, 4}}
					p := []*int{&recs[pos].plat, &recs[pos].enc, &recs[pos].lang, &recs[pos].name}
					*p[fi] = v
					nameCheck(t, fmt.Sprintf("%s %d of record %d", field, v, pos), recs, nil, 0, storage, false)
				}
			}
			t.Trace()
		})
	}

	// every sequence of records
	alpha := []nRec{{0, 4, 0, 1, 0, 0}, {3, 1, 0x409, 1, 0, 0}, {1, 0, 0, 1, 0, 0}, {3, 1, 0x407, 4, 0, 0}, {1, 1, 11, 4, 0, 0}, {3, 10, 0x409, 25, 0, 0}}
	places := func(n int) [][][2]int { // offset and length of each of n values within 8n bytes
		var a, b, c, d, z [][2]int
		for i := 0; i < n; i++ {
			a = append(a, [2]int{8 * i, 8})
			b = append(b, [2]int{8 * (n - 1 - i), 8})
			c = append(c, [2]int{0, 8})
			d = append(d, [2]int{2 * i, 4})
			z = append(z, [2]int{8 * n, 0})
		}
		return [][][2]int{a, b, c, d, z}
	}
	storage := func(n int) []byte {
		var b []byte
		for i := 0; i < 8*n; i++ {
			if i%2 == 1 {
				b = append(b, byte('a'+i/2))
			} else {
				b = append(b, 0)
			}
		}
		return b
	}
	maxn := 4
	if e.Thorough {
		maxn = 5
	}
	for first := -1; first < len(alpha); first++ {
		e.Case(fmt.Sprintf("name/sequence/%d", first), func(t *core.T) {
			var rec func(cur []nRec)
			rec = func(cur []nRec) {
				n := len(cur)
				st := storage(n)
				for pi, pl := range places(n) {
					recs := append([]nRec{}, cur...)
					for i := range recs {
						recs[i].off, recs[i].length = pl[i][0], pl[i][1]
					}
					t.State(fmt.Sprint(recs))
					if !nameCheck(t, fmt.Sprintf("records %v, places %d", recs, pi), recs, nil, 0, st, true) {
						return
					}
				}
				if n == 0 && first < 0 || n == maxn {
					return
				}
				for k, r := range alpha {
					if n > 0 || k == first {
						rec(append(cur, r))
					}
				}
			}
			rec(nil)
			t.Trace()
		})
	}

	// language tags
	e.Case("name/language tags", func(t *core.T) {
		st := append(storage(3), '\x00', 'e', 0xD8, 0x3D, 0xDE, 0x00, 0x20, 0xAC)
		spots := [][2]int{{0, 8}, {0, 0}, {2, 4}, {24, 2}, {24, 8}, {len(st), 0}, {28, 0}, {8, 16}}
		for nr := 0; nr <= 2; nr++ {
			recs := []nRec{{3, 1, 0x8000, 1, 4, 4}, {0, 3, 0x8001, 2, 24, 6}}[:nr]
			nameCheck(t, "no tags", recs, nil, 1, st, true)
			for a := range spots {
				nameCheck(t, fmt.Sprint("tag ", a), recs, spots[a:a+1], 1, st, true)
				for b := range spots {
					nameCheck(t, fmt.Sprint("tags ", a, b), recs, [][2]int{spots[a], spots[b]}, 1, st, true)
					for c := range spots {
						nameCheck(t, fmt.Sprint("tags ", a, b, c), recs, [][2]int{spots[a], spots[b], spots[c]}, 1, st, true)
					}
				}
			}
		}
		t.Trace()
	})

	// texts
	for _, c := range [][2]int{{0, 0}, {0, 3}, {0, 4}, {3, 0}, {3, 1}, {3, 10}, {1, 0}, {1, 1}, {1, 2}, {2, 1}, {4, 0}} {
		plat, enc := c[0], c[1]
		e.Case(fmt.Sprintf("name/text/%d-%d", plat, enc), func(t *core.T) {
			try := func(b []byte) bool {
				t.StateB(b)
				return nameCheck(t, "text", []nRec{{plat, enc, 0, 1, 0, len(b)}}, nil, 0, b, true)
			}
			if plat == 0 || plat == 3 {
				for hi := 0; hi < 256; hi++ { // every character of the first plane
					if 0xD8 <= hi && hi < 0xE0 {
						continue
					}
					var b []byte
					for lo := 0; lo < 256; lo++ {
						b = append(b, byte(hi), byte(lo))
					}
					if !try(b) {
						return
					}
					for _, lo := range []byte{0, 1, 0xFD, 0xFE, 0xFF} { // alone and first
						try([]byte{byte(hi), lo})
						try([]byte{byte(hi), lo, 0, 'x'})
					}
				}
				for hi := 0xD800; hi < 0xDC00; hi++ {
					if !e.Thorough && hi&0x1F != 0 && hi&0x1F != 0x1F && hi > 0xD804 {
						continue
					}
					var b []byte
					for lo := 0xDC00; lo < 0xE000; lo++ {
						if e.Thorough || lo&0xF == 0 || lo&0xF == 0xF || hi == 0xD83D {
							b = append(b, byte(hi>>8), byte(hi), byte(lo>>8), byte(lo))
						}
					}
					if !try(b) {
						return
					}
				}
			} else {
				var b []byte
				for i := 0; i < 256; i++ {
					b = append(b, byte(i))
					try([]byte{byte(i)})
					try([]byte{0, byte(i)})
					try([]byte{byte(i), 'x'})
				}
				try(b)
				for i := 0; i < 256; i++ {
					var p []byte
					for k := 0; k < 256; k++ {
						p = append(p, byte(i), byte(k))
					}
					try(p)
				}
			}
			for _, n := range []int{0, 254, 256, 510, 512, 4094, 4096, 8192, 32766, 65534} { // lengths
				try([]byte(strings.Repeat("\x00z", n/2)))
			}
			t.Trace()
		})
	}
	// many records, and offsets and lengths at the ends of their range
	e.Case("name/large", func(t *core.T) {
		st := make([]byte, 131070)
		for i := range st {
			st[i] = byte(i>>9) ^ byte(i)
		}
		for _, off := range []int{0, 1, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF} {
			for _, l := range []int{0, 1, 2, 0x7FFF, 0x8000, 0xFFFF} {
				nameCheck(t, fmt.Sprintf("offset %d length %d", off, l), []nRec{{1, 0, 0, 3, off, l}, {3, 1, 1, 2, 0xFFFF - off, l}}, nil, 0, st, false)
			}
		}
		for _, n := range []int{100, 255, 256, 257, 2000, 5400} {
			var recs []nRec
			for i := 0; i < n; i++ {
				recs = append(recs, nRec{i % 5, i % 11, i, i % 300, (i * 7) % 60000, i % 40})
			}
			nameCheck(t, fmt.Sprint(n, " records"), recs, nil, 0, st, false)
			nameCheck(t, fmt.Sprint(n, " records and tags"), recs, [][2]int{{5, 6}, {100, 2}}, 1, st, false)
		}
		t.Trace()
	})
	c23dicts(e)
	e.Wait()
}

// dField is an operator of a dictionary and the field it is reported in.
type dField struct {
	op   int
	name string
	kind byte // i integer, f number, b flag, s string, I list of integers, F list of numbers
	n    int  // operands, 0 for any number
	def  []float64
}

var dTop = []dField{
	{0, "Version", 's', 1, nil}, {1, "Notice", 's', 1, nil}, {256, "Copyright", 's', 1, nil}, {2, "FullName", 's', 1, nil}, {3, "FamilyName", 's', 1, nil}, {4, "Weight", 's', 1, nil},
	{257, "IsFixedPitch", 'b', 1, []float64{0}}, {258, "ItalicAngle", 'f', 1, []float64{0}}, {259, "UnderlinePosition", 'f', 1, []float64{-100}}, {260, "UnderlineThickness", 'f', 1, []float64{50}},
	{261, "PaintType", 'i', 1, []float64{0}}, {263, "FontMatrix", 'F', 6, []float64{0.001, 0, 0, 0.001, 0, 0}}, {13, "UniqueID", 'i', 1, []float64{0}}, {5, "FontBBox", 'F', 4, []float64{0, 0, 0, 0}},
	{264, "StrokeWidth", 'f', 1, []float64{0}}, {14, "XUID", 'I', 0, nil}, {277, "PostScript", 's', 1, nil}, {278, "BaseFontName", 's', 1, nil}, {279, "BaseFontBlend", 'I', 0, nil},
}
var dPriv = []dField{
	{6, "BlueValues", 'F', 0, nil}, {7, "OtherBlues", 'F', 0, nil}, {8, "FamilyBlues", 'F', 0, nil}, {9, "FamilyOtherBlues", 'F', 0, nil},
	{265, "BlueScale", 'f', 1, []float64{0.039625}}, {266, "BlueShift", 'f', 1, []float64{7}}, {267, "BlueFuzz", 'f', 1, []float64{1}}, {10, "StdHW", 'f', 1, []float64{0}}, {11, "StdVW", 'f', 1, []float64{0}},
	{268, "StemSnapH", 'F', 0, nil}, {269, "StemSnapV", 'F', 0, nil}, {270, "ForceBold", 'b', 1, []float64{0}}, {273, "LanguageGroup", 'i', 1, []float64{0}}, {274, "ExpansionFactor", 'f', 1, []float64{0.06}},
	{275, "InitialRandomSeed", 'i', 1, []float64{0}}, {20, "DefaultWidthX", 'f', 1, []float64{0}}, {21, "NominalWidthX", 'f', 1, []float64{0}},
}

// dOper is an operand: its value and its encoding.
type dOper struct {
	v float64
	b []byte
}

func dInt(v int, form int) (dOper, bool) { // 0 shortest, 1 operator 28, 2 operator 29
	o := dOper{v: float64(v)}
	switch {
	case form == 2:
		o.b = binary.BigEndian.AppendUint32([]byte{29}, uint32(int32(v)))
	case form == 1:
		if v < -32768 || 32767 < v {
			return o, false
		}
		o.b = binary.BigEndian.AppendUint16([]byte{28}, uint16(int16(v)))
	case -107 <= v && v <= 107:
		o.b = []byte{byte(v + 139)}
	case 108 <= v && v <= 1131:
		o.b = []byte{byte((v-108)>>8 + 247), byte(v - 108)}
	case -1131 <= v && v <= -108:
		o.b = []byte{byte((-v-108)>>8 + 251), byte(-v - 108)}
	default:
		return o, false
	}
	return o, true
}

func dEntry(op int, opers ...dOper) (b []byte) {
	for _, o := range opers {
		b = append(b, o.b...)
	}
	if op >= 256 {
		return append(b, 12, byte(op-256))
	}
	return append(b, byte(op))
}

// dGet returns the numbers of a field.
func dGet(dict any, f dField) []float64 {
	v := reflect.ValueOf(dict).Elem().FieldByName(f.name)
	switch f.kind {
	case 'b':
		if v.Bool() {
			return []float64{1}
		}
		return []float64{0}
	case 'i':
		return []float64{float64(v.Int())}
	case 'f':
		return []float64{v.Float()}
	}
	var out []float64
	for i := 0; i < v.Len(); i++ {
		if f.kind == 'I' {
			out = append(out, float64(v.Index(i).Int()))
		} else {
			out = append(out, v.Index(i).Float())
		}
	}
	return out
}

func sameNums(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(math.Abs(a[i]-b[i]) <= tol*math.Abs(b[i])) {
			return false
		}
	}
	return true
}

type dSet struct {
	f   dField
	val []dOper
}

// dCheck writes the entries into the top or private dictionary and compares what is reported with it,
// and what is written after operations when ops is set.
func dCheck(t *core.T, top bool, set []dSet, ops bool) bool {
	var entry []byte
	var desc string
	for _, s := range set {
		entry = append(entry, dEntry(s.f.op, s.val...)...)
		var vs []float64
		for _, v := range s.val {
			vs = append(vs, v.v)
		}
		desc += fmt.Sprintf("%s=%v (% X) ", s.f.name, vs, dEntry(s.f.op, s.val...))
	}
	if len(desc) > 400 {
		desc = desc[:400]
	}
	ci := ref.CFFInfo{Charset: []string{".notdef", "verif.first", "Caf\xe9 (r) 2", strings.Repeat("long ", 60)}} // strings 391 to 393
	fields := dPriv
	if top {
		ci.TopExtra, fields = entry, dTop
	} else {
		ci.PrivExtra, ci.BarePriv = entry, true
	}
	b := cffSrcFont([][]byte{{14}, padCS(6), padCS(9), padCS(12)}, ci).SFNT()
	t.Trans(1)
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("rejected", "%s: %v", desc, err)
		return false
	}
	rv, err := ref.ReadCFF(f.Tables["CFF "])
	if err != nil {
		t.Fail("harness", "%s: %v", desc, err)
		return false
	}
	want := map[int][]float64{}
	for _, s := range set {
		var vs []float64
		for _, v := range s.val {
			vs = append(vs, v.v)
		}
		if s.f.kind == 'b' && vs[0] != 0 {
			vs[0] = 1
		}
		want[s.f.op] = vs
	}
	ok := true
	cmp := func(g *font.SFNT, where string) {
		dicts := []any{}
		if top {
			dicts = append(dicts, g.CFF.TopDICT())
		} else {
			for i := uint16(0); i < g.NumGlyphs(); i++ {
				p, err := g.CFF.PrivateDICT(i)
				if err != nil {
					ok = false
					t.Fail("no dictionary", "%s: %s: glyph %d: %v", desc, where, i, err)
					return
				}
				dicts = append(dicts, p)
			}
		}
		for _, d := range dicts {
			for _, fd := range fields {
				if fd.kind == 's' {
					got := reflect.ValueOf(d).Elem().FieldByName(fd.name).String()
					if got != rv.TopStr[fd.op] {
						ok = false
						t.Fail("string", "%s: %s: %s is %q, stored %q", desc, where, fd.name, got, rv.TopStr[fd.op])
					}
					continue
				}
				w, set := want[fd.op]
				if !set {
					w = fd.def
				}
				if got := dGet(d, fd); !sameNums(got, w, 0) {
					ok = false
					t.Fail("value", "%s: %s: %s is %v, stored %v", desc, where, fd.name, got, w)
				}
			}
		}
	}
	cmp(f, "as parsed")
	if !ok || !ops {
		return ok
	}
	written := func(g *font.SFNT, where string) {
		cmp(g, where)
		v, err := ref.ReadCFF(g.Tables["CFF "])
		if err != nil {
			ok = false
			t.Fail("written", "%s: %s: %v", desc, where, err)
			return
		}
		m, m0 := v.Private, rv.Private
		if top {
			m, m0 = []map[int][]float64{v.Top}, []map[int][]float64{rv.Top}
		}
		for _, fd := range fields {
			if fd.kind == 's' {
				if v.TopStr[fd.op] != rv.TopStr[fd.op] {
					ok = false
					t.Fail("written string", "%s: %s: %s is written as %q, was %q", desc, where, fd.name, v.TopStr[fd.op], rv.TopStr[fd.op])
				}
				continue
			}
			a, b := m[0][fd.op], m0[0][fd.op]
			if a == nil {
				a = fd.def
			}
			if b == nil {
				b = fd.def
			}
			if fd.kind == 'b' {
				b = []float64{flag01(b[0])}
			}
			if !sameNums(a, b, 0) {
				ok = false
				t.Fail("written value", "%s: %s: %s is written as %v, was %v", desc, where, fd.name, a, b)
			}
		}
	}
	if g, err := f.Subset([]uint16{0, 2}, font.SubsetOptions{Tables: font.KeepAllTables}); err != nil {
		t.Fail("subset", "%s: %v", desc, err)
		ok = false
	} else {
		written(g, "subset")
	}
	if g, err := font.ParseSFNT(clone(b), 0); err == nil {
		if err := g.SetGlyphNames([]string{".notdef", "one", "two", "three"}); err != nil {
			t.Fail("rename", "%s: %v", desc, err)
			ok = false
		} else {
			written(g, "rename")
		}
	}
	return ok
}

func flag01(v float64) float64 {
	if v != 0 {
		return 1
	}
	return 0
}

func c23dicts(e *core.Env) {
	real := func(s string) dOper {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic(err)
		}
		return dOper{v, ref.DictReal(s)}
	}
	var ints []dOper
	lim := 1300
	if e.Thorough {
		lim = 33000
	}
	for v := -lim; v <= lim; v++ {
		for form := 0; form < 3; form++ {
			if o, ok := dInt(v, form); ok && (form == 0 || v%50 == 0 || v&(v+1) == 0 || v&(v-1) == 0) {
				ints = append(ints, o)
			}
		}
	}
	for k := 10; k < 32; k++ {
		for d := -2; d <= 2; d++ {
			for _, v := range []int{1<<k + d, -1<<k + d} {
				if math.MinInt32 <= v && v <= math.MaxInt32 {
					for form := 1; form < 3; form++ {
						if o, ok := dInt(v, form); ok {
							ints = append(ints, o)
						}
					}
				}
			}
		}
	}
	var reals []dOper
	for _, sign := range []string{"", "-"} {
		for _, ip := range []string{"", "0", "1", "9", "12", "007", "4567", "32768", "123456789"} {
			for _, fp := range []string{"", ".", ".0", ".5", ".05", ".125", ".000244140625", ".333333333"} {
				if ip == "" && len(fp) < 2 {
					continue
				}
				for _, ex := range []string{"", "E0", "E1", "E5", "E-1", "E-3", "E-9", "E-12"} {
					reals = append(reals, real(sign+ip+fp+ex))
				}
			}
		}
	}
	few := []dOper{}
	for _, v := range []int{0, 1, -107, 108, -1131, 1132, 100000, -2147483648} {
		for form := 0; form < 3; form++ {
			if o, ok := dInt(v, form); ok {
				few = append(few, o)
				break
			}
		}
	}
	few2 := append(append([]dOper{}, few...), real("0.5"), real("-3.25E-5"), real("1234.75"))
	for _, top := range []bool{true, false} {
		fields, where := dPriv, "private"
		if top {
			fields, where = dTop, "top"
		}
		for fi, fd := range fields {
			e.Case(fmt.Sprintf("dictionary/%s/%s", where, fd.name), func(t *core.T) {
				vals := ints
				switch fd.kind {
				case 'f', 'F':
					vals = append(append([]dOper{}, ints...), reals...)
				case 'b':
					vals = few[:3]
				case 's':
					vals = nil
					for v := 0; v <= 393; v++ {
						o, _ := dInt(v, 0)
						if v >= 391 {
							for form := 1; form < 3; form++ {
								o, _ := dInt(v, form)
								vals = append(vals, o)
							}
						}
						vals = append(vals, o)
					}
				}
				if fd.name == "PaintType" {
					vals = few[:2]
				}
				for vi, v := range vals {
					ops := len(vals) < 100 || vi%7 == 0 || len(vals)-vi < 10 || e.Thorough
					switch {
					case fd.n == 1:
						if !dCheck(t, top, []dSet{{fd, []dOper{v}}}, ops) {
							return
						}
					case fd.n == 0:
						if !dCheck(t, top, []dSet{{fd, []dOper{v}}}, ops) {
							return
						}
					default:
						l := make([]dOper, fd.n)
						for i := range l {
							l[i], _ = dInt(i-2, 0)
						}
						l[vi%fd.n] = v
						if !dCheck(t, top, []dSet{{fd, l}}, ops) {
							return
						}
					}
					t.State(fmt.Sprint(fd.name, v.b))
				}
				vs := few
				if fd.kind == 'f' || fd.kind == 'F' {
					vs = few2
				}
				if fd.n != 1 { // every position of every length
					for n := 1; n <= 14; n++ {
						if fd.n != 0 && n != fd.n {
							continue
						}
						for k := 0; k < n; k++ {
							for _, v := range vs {
								l := make([]dOper, n)
								for i := range l {
									l[i], _ = dInt(10*i+3, 0)
								}
								l[k] = v
								if !dCheck(t, top, []dSet{{fd, l}}, true) {
									return
								}
							}
						}
					}
				}
				// with every other operator before and behind it
				for oi, od := range fields {
					if oi == fi {
						continue
					}
					mk := func(f dField, k int) []dOper {
						n := f.n
						if n == 0 {
							n = 3 + k
						}
						l := make([]dOper, n)
						for i := range l {
							l[i], _ = dInt(20+11*i+k, 0)
							if f.kind == 'b' || f.name == "PaintType" {
								l[i], _ = dInt(1, 0)
							} else if f.kind == 's' {
								l[i], _ = dInt(393-k, 0)
							}
						}
						return l
					}
					if !dCheck(t, top, []dSet{{fd, mk(fd, 0)}, {od, mk(od, 1)}}, true) {
						return
					}
				}
				t.Trace()
			})
		}
	}
	// the dictionary of each glyph of a CID-keyed font
	e.Case("dictionary/CID", func(t *core.T) {
		for n := 1; n <= 4; n++ {
			for sel := 0; sel < 1<<(2*n); sel++ {
				for _, fdf := range []int{0, 3} {
					fds := []byte{0}
					for i := 0; i < n; i++ {
						fds = append(fds, byte(sel>>(2*i)&3))
					}
					var loc [][][]byte
					for k := 0; k < 4; k++ {
						var l [][]byte
						for i := 0; i <= k; i++ {
							l = append(l, []byte{11})
						}
						loc = append(loc, l)
					}
					cs := [][]byte{{14}}
					for i := 0; i < n; i++ {
						cs = append(cs, padCS(6))
					}
					b := cffSrcFont(cs, ref.CFFInfo{CID: true, FDSelect: fds, FDFormat: fdf, FDLocal: loc}).SFNT()
					f, err := font.ParseSFNT(b, 0)
					t.Trans(1)
					if err != nil {
						t.Fail("rejected", "CID %v format %d: %v", fds, fdf, err)
						return
					}
					rv, err := ref.ReadCFF(f.Tables["CFF "])
					if err != nil {
						t.Fail("harness", "%v", err)
						return
					}
					for i := range fds {
						p, err := f.CFF.PrivateDICT(uint16(i))
						if err != nil {
							t.Fail("CID", "%v format %d: glyph %d: %v", fds, fdf, i, err)
							return
						}
						d := rv.Private[rv.FD[i]]
						for _, o := range []struct {
							op  int
							got float64
						}{{19, float64(p.Subrs)}, {20, p.DefaultWidthX}, {21, p.NominalWidthX}} {
							w := 0.0
							if d[o.op] != nil {
								w = d[o.op][0]
							}
							if o.got != w {
								t.Fail("CID", "%v format %d: operator %d of glyph %d is %v, stored %v", fds, fdf, o.op, i, o.got, w)
							}
						}
					}
					if _, err := f.CFF.PrivateDICT(uint16(len(fds))); err == nil {
						t.Fail("CID", "%v format %d: a glyph beyond the last has a dictionary", fds, fdf)
					}
				}
			}
		}
		t.Trace()
	})
	e.Case("dictionary/CID top", func(t *core.T) {
		cid := []struct {
			op   int
			name string
			def  float64
		}{{287, "CIDFontVersion", 0}, {288, "CIDFontRevision", 0}, {289, "CIDFontType", 0}, {290, "CIDCount", 8720}, {291, "UIDBase", 0}, {258, "ItalicAngle", 0}, {260, "UnderlineThickness", 50}}
		for mask := 0; mask < 1<<len(cid); mask++ {
			for _, vals := range [][]int{{1, 2, 3, 5, 8, -13, 21}, {0, 0, 0, 0, 0, 0, 0}, {108, 1132, 32767, 65535, 16777216, -1131, -32768}} {
				var extra []byte
				want := map[string]float64{}
				for k, o := range cid {
					want[o.name] = o.def
					if mask>>k&1 != 0 {
						v, ok := dInt(vals[k], 0)
						if !ok {
							v, _ = dInt(vals[k], 2)
						}
						extra = append(extra, dEntry(o.op, v)...)
						want[o.name] = v.v
					}
				}
				ci := ref.CFFInfo{CID: true, FDSelect: []byte{0, 1, 0}, FDLocal: [][][]byte{{{11}}, {{11}, {11}}}, TopExtra: extra}
				b := cffSrcFont([][]byte{{14}, padCS(6), padCS(9)}, ci).SFNT()
				t.Trans(1)
				f, err := font.ParseSFNT(b, 0)
				if err != nil {
					t.Fail("rejected", "mask %x values %v: %v", mask, vals, err)
					return
				}
				check := func(g *font.SFNT, where string) {
					d := reflect.ValueOf(g.CFF.TopDICT()).Elem()
					for _, o := range cid {
						v := d.FieldByName(o.name)
						x := 0.0
						if v.CanInt() {
							x = float64(v.Int())
						} else {
							x = v.Float()
						}
						if x != want[o.name] {
							t.Fail("CID value", "mask %x values %v: %s: %s is %v, stored %v", mask, vals, where, o.name, x, want[o.name])
						}
					}
					if ros := fmt.Sprint(d.FieldByName("IsCID"), d.FieldByName("ROS1"), d.FieldByName("ROS2"), d.FieldByName("ROS3")); ros != "true Adobe Identity 0" {
						t.Fail("ROS", "mask %x values %v: %s: registry, ordering and supplement are %s", mask, vals, where, ros)
					}
				}
				check(f, "as parsed")
			}
		}
		t.Trace()
	})
}
