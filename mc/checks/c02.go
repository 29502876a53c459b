package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Check{ID: "C02", Run: c02, CaseLimit: 10 * time.Minute,
		Rule: "at every state reached by the explored operation sequences, and for every explored table count, table length, content, file layout, container and table selection, the written file passes a strict independent reader (header, search fields, sorted unique directory, alignment, padding, checksums, checksum adjustment, consistency of the tables themselves), " +
			"its tables are those in memory except for the date and the adjustment, its length is the reported one, and writing again or writing the parsed file gives the same bytes",
		Assumptions: []string{"at least one table is kept", "the clock is only required to lie within the bounds measured around the call"}})
}

// maskFile clears the date and what follows from it.
func maskFile(b []byte) []byte {
	b = clone(b)
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		if string(b[p:p+4]) == "head" {
			o := binary.BigEndian.Uint32(b[p+8:])
			copy(b[p+4:p+8], make([]byte, 4))
			copy(b[o+8:o+12], make([]byte, 4))
			copy(b[o+28:o+36], make([]byte, 8))
		}
	}
	return b
}

// wellWritten checks what a font writes; strict tells whether the tables are checked for consistency.
func wellWritten(t *core.T, desc string, f *font.SFNT, strict bool) bool {
	epoch := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	t0 := time.Now().Unix() - epoch
	b := f.Write()
	t1 := time.Now().Unix() - epoch
	fail := func(sig, format string, args ...any) bool {
		t.Fail(sig, "%s: %s", desc, fmt.Sprintf(format, args...))
		return false
	}
	ds, tables, err := ref.ReadDir(b)
	if err != nil {
		return fail("malformed: "+strings.Join(strings.Fields(strings.Map(func(r rune) rune {
			if '0' <= r && r <= '9' {
				return -1
			}
			return r
		}, err.Error())), " "), "%v", err)
	}
	if want := map[bool]string{true: "OTTO", false: "\x00\x01\x00\x00"}[f.IsCFF]; string(b[:4]) != want {
		return fail("version", "version %q", b[:4])
	}
	// tables are packed in a row
	sort.Slice(ds, func(i, j int) bool { return ds[i].Offset < ds[j].Offset })
	pos := uint32(12 + 16*len(ds))
	for _, d := range ds {
		if d.Length != 0 && d.Offset != pos {
			return fail("gap", "table %q at %d instead of %d", d.Tag, d.Offset, pos)
		}
		pos += (d.Length + 3) &^ 3
	}
	if int(pos) != len(b) {
		return fail("tail", "%d bytes for tables that end at %d", len(b), pos)
	}
	if int(f.Length) != len(b) {
		return fail("length", "reported length %d, written %d", f.Length, len(b))
	}
	if len(tables) != len(f.Tables) {
		return fail("tables", "%d tables written of %d", len(tables), len(f.Tables))
	}
	for tag, want := range f.Tables {
		got, ok := tables[tag]
		if !ok {
			return fail("tables", "table %q not written", tag)
		}
		if tag == "head" {
			if m := int64(binary.BigEndian.Uint64(got[28:])); m < t0 || t1 < m {
				return fail("date", "modification date %d not between %d and %d", m, t0, t1)
			}
			got, want = clone(got), clone(want)
			for _, h := range [][]byte{got, want} {
				copy(h[8:12], make([]byte, 4))
				copy(h[28:36], make([]byte, 8))
			}
		}
		if !bytes.Equal(got, want) {
			return fail("content", "table %q differs: %s written instead of %s", tag, clip(got), clip(want))
		}
	}
	if strict && wParsable(f) && has(f, "head", "maxp", "hhea", "hmtx") {
		if _, err := ref.ReadTables(string(b[:4]), tables); err != nil {
			return fail("inconsistent tables", "%v", err)
		}
	}
	m := maskFile(b)
	if again := maskFile(f.Write()); !bytes.Equal(m, again) {
		return fail("second write", "another write gives another file")
	}
	if wParsable(f) {
		g, err := wReparse(b)
		if err != nil {
			return fail("parse", "%v", err)
		}
		if int(g.Length) != len(b) {
			return fail("parsed length", "reported length %d of the parsed file, %d bytes", g.Length, len(b))
		}
		if again := maskFile(g.Write()); !bytes.Equal(m, again) {
			return fail("cycle", "writing the parsed file gives another file")
		}
	}
	return true
}

// layoutSFNT builds a file with the table data in the given order, unusual directories included.
func layoutSFNT(version string, tables map[string][]byte, dir, data []string, gap int, junk byte, unaligned, noPad bool) []byte {
	out := []byte(version)
	out = binary.BigEndian.AppendUint16(out, uint16(len(dir)))
	out = append(out, 9, 9, 9, 9, 9, 9)
	offs := map[string]int{}
	var body []byte
	base := 12 + 16*len(dir)
	for _, k := range data {
		for g := 0; g < gap; g++ {
			body = append(body, junk)
		}
		for !unaligned && (base+len(body))%4 != 0 {
			body = append(body, junk)
		}
		offs[k] = base + len(body)
		body = append(body, tables[k]...)
	}
	for len(body)%4 != 0 {
		body = append(body, junk)
	}
	if !noPad {
		body = append(body, junk, junk, junk, junk)
	}
	for _, k := range dir {
		out = append(out, k...)
		out = binary.BigEndian.AppendUint32(out, 0xDEADBEEF)
		out = binary.BigEndian.AppendUint32(out, uint32(offs[k]))
		out = binary.BigEndian.AppendUint32(out, uint32(len(tables[k])))
	}
	return append(out, body...)
}

func c02(e *core.Env) {
	// 1. states of the world
	roots := wFonts()
	ops := wOps(roots)
	for _, r := range roots {
		for i := range ops {
			e.Case(fmt.Sprintf("%s, %s", r.name, ops[i].name), func(t *core.T) {
				var last func(int) bool
				if !t.E.Thorough {
					last = func(k int) bool { return (k+i)%5 == 0 || k >= len(ops)-8 }
				}
				explore(t, r, ops, []int{i}, 3, last, func(desc string, mk func() *font.SFNT) bool {
					f := mk()
					return f != nil && (len(f.Tables) == 0 || wellWritten(t, desc, f, true))
				})
			})
		}
	}

	// 2. number and lengths of tables
	contents := func(n int, fill byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = fill
			if fill == 1 {
				b[i] = byte(i*7 + 3)
			}
		}
		return b
	}
	maxExtra := 60
	if e.Thorough {
		maxExtra = 260
	}
	for _, r := range roots {
		chunk(maxExtra, 20, func(lo, hi int) {
			e.Case(fmt.Sprintf("%s with %d to %d more tables", r.name, lo, hi-1), func(t *core.T) {
				base := rawTables(r.b)
				for n := lo; n < hi; n++ {
					for _, fill := range []byte{0, 1, 0xFF} {
						for l0 := 0; l0 < 9; l0++ {
							tb := map[string][]byte{}
							for k, v := range base {
								tb[k] = v
							}
							for i := 0; i < n; i++ {
								tag := fmt.Sprintf("%c%c%c%c", " Aaz~"[i%5], '!'+i/5%90, 'a'+i/450, ' ')
								tb[tag] = contents((l0+i)%9, fill)
							}
							desc := fmt.Sprintf("%s with %d more tables of %d.. bytes %#x", r.name, n, l0, fill)
							f, err := font.ParseSFNT(ref.BuildSFNT(string(r.b[:4]), tb), 0)
							t.Trans(1)
							t.State(desc)
							if err != nil {
								t.Fail("parse", "%s: %v", desc, err)
								return
							}
							if !wellWritten(t, desc, f, true) {
								return
							}
							t.Trace()
						}
					}
				}
			})
		})
	}

	// 3. file layouts
	for _, r := range roots {
		e.Case(r.name+": file layouts", func(t *core.T) {
			base := rawTables(r.b)
			tags := sortedKeys(base)
			n := len(tags)
			var dirs, datas [][]string
			rev := append([]string{}, tags...)
			sort.Sort(sort.Reverse(sort.StringSlice(rev)))
			for k := 0; k < n; k++ {
				rot := append(append([]string{}, tags[k:]...), tags[:k]...)
				dirs = append(dirs, rot)
				datas = append(datas, rot)
			}
			dirs, datas = append(dirs, rev), append(datas, rev)
			for k := 0; k+1 < n; k++ { // neighbours swapped
				sw := append([]string{}, tags...)
				sw[k], sw[k+1] = sw[k+1], sw[k]
				dirs, datas = append(dirs, sw), append(datas, sw)
			}
			for di, dir := range dirs {
				for dj, data := range datas {
					for gap := 0; gap < 6; gap++ {
						for flags := 0; flags < 4; flags++ {
							if !t.E.Thorough && (di+dj+gap+flags)%3 != 0 {
								continue
							}
							desc := fmt.Sprintf("%s: directory %d, data %d, gaps of %d, layout %d", r.name, di, dj, gap, flags)
							b := layoutSFNT(string(r.b[:4]), base, dir, data, gap, 0xA5, flags&1 != 0, flags&2 != 0)
							f, err := font.ParseSFNT(b, 0)
							t.Trans(1)
							t.State(desc)
							if err != nil {
								continue // stricter parsing is fine
							}
							for k, v := range base {
								if !bytes.Equal(f.Tables[k], v) {
									t.Fail("parsed table", "%s: table %q", desc, k)
									return
								}
							}
							if !wellWritten(t, desc, f, true) {
								return
							}
							t.Trace()
						}
					}
				}
			}
		})
	}

	// 4. containers
	for ri, r := range roots {
		e.Case(r.name+": containers", func(t *core.T) {
			base := rawTables(r.b)
			base["head"] = clone(base["head"])
			base["head"][16] |= 8
			ver := string(r.b[:4])
			try := func(desc string, b []byte, idx int) {
				desc = r.name + ": " + desc
				f, err := font.ParseSFNT(clone(b), idx)
				t.Trans(1)
				t.State(desc)
				if err != nil {
					t.Fail("parse", "%s: %v", desc, err)
					return
				}
				for _, k := range sortedKeys(base) {
					if f.Tables[k] == nil && k != "DSIG" {
						t.Fail("parsed table", "%s: table %q is missing", desc, k)
						return
					}
				}
				if wellWritten(t, desc, f, true) {
					t.Trace()
				}
			}
			for k := 0; k < 8; k++ {
				try(fmt.Sprintf("WOFF %d", k), ref.BuildWOFF(ver, base, ref.WOFFOpts{Compress: func(tag string) bool { return k&1 != 0 && tag != "head" || k&4 != 0 }, Level: 6, Reverse: k&2 != 0, Meta: k == 7}), 0)
			}
			for k := 0; k < 4; k++ {
				if r.cff && k != 0 {
					continue
				}
				noSig := map[string][]byte{}
				for tag, v := range base {
					if tag != "DSIG" {
						noSig[tag] = v
					}
				}
				try(fmt.Sprintf("WOFF2 %d", k), ref.BuildWOFF2(ver, noSig, ref.W2Opts{GlyfTransform: k&1 != 0, BBoxAlways: k&2 != 0, LocaLong: -1, Quality: 1}), 0)
			}
			for k := 0; k < 4; k++ {
				try(fmt.Sprintf("EOT %d", k), ref.BuildEOT(ref.BuildSFNT(ver, base), ref.EOTOpts{Version: 0x20001, XOR: k&1 != 0, Strings: [4]int{k, 1, 2, 3}, Tail: k}), 0)
			}
			for rj, other := range roots {
				for k := 0; k < 8; k++ {
					if rj == ri && k&1 != 0 {
						continue
					}
					ms := []ref.Member{{Version: ver, Tables: base}, {Version: string(other.b[:4]), Tables: rawTables(other.b)}}
					idx := 0
					if k&4 != 0 {
						ms[0], ms[1] = ms[1], ms[0]
						idx = 1
					}
					order := []int{0, 1}
					if k&2 != 0 {
						order = []int{1, 0}
					}
					try(fmt.Sprintf("collection with %s %d", other.name, k), ref.BuildTTC(ms, order, k&1 != 0, 1+k&1), idx)
				}
			}
		})
	}

	// 5. every selection of tables
	for _, r := range roots {
		tags := sortedKeys(rawTables(r.b))
		total := 1 << len(tags)
		step := 1
		if !e.Thorough && total > 4096 {
			step = total/4096 + 1 // odd steps visit every bit pattern of the low tables
			step |= 1
		}
		chunk((total+step-1)/step, 512, func(lo, hi int) {
			e.Case(fmt.Sprintf("%s: table selections %d to %d", r.name, lo*step, (hi-1)*step), func(t *core.T) {
				f, err := font.ParseSFNT(clone(r.b), 0)
				if err != nil {
					t.Fail("parse", "%s: %v", r.name, err)
					return
				}
				n := int(f.NumGlyphs())
				for k := lo; k < hi; k++ {
					m := k * step
					if m == 0 || m >= total {
						continue
					}
					var sel []string
					for i, tag := range tags {
						if m>>i&1 != 0 {
							sel = append(sel, tag)
						}
					}
					ids := []uint16{0}
					if n > 1 {
						ids = append(ids, uint16(1+k%(n-1)))
					}
					desc := fmt.Sprintf("%s: subset %v, tables %q", r.name, ids, sel)
					s, err := f.Subset(ids, font.SubsetOptions{Tables: append([]string{}, sel...)})
					t.Trans(1)
					t.State(desc)
					if err != nil {
						continue
					}
					if len(s.Tables) == 0 {
						continue
					}
					if !wellWritten(t, desc, s, true) {
						return
					}
					t.Trace()
				}
			})
		})
	}
	c02conv(e)
	e.Wait()
}
