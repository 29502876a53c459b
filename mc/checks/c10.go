package checks

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{ID: "C10", Run: c10, CaseLimit: 10 * time.Minute,
		Rule: "at every state reached by the explored operation sequences (subset, merge, rename, write and parse, WOFF2 round trip, queries in between), the font in memory answers every query (glyph count, outline, bounds, advance, bearing, vertical advance, name, characters of every glyph; character map at all probes; kerning of every pair; line metrics; name lookup) " +
			"and has the same metric and dictionary values as the font obtained by writing it and parsing the bytes",
		Assumptions: []string{"subsets without the tables that parsing requires are not compared", "layout tables (GPOS, GSUB) are not parsed by the library"}})
}

var c10skip = map[string]bool{"Modified": true, "CheckSumAdjustment": true, "Length": true, "Version": true, "Tables": true, "Glyf": true, "Loca": true, "CFF": true, "Hmtx": true, "Vmtx": true, "Cmap": true}

// same10 compares a font in memory with what it is after writing and parsing.
func same10(t *core.T, desc string, f *font.SFNT, o sut.Opt) bool {
	if !wParsable(f) {
		return true
	}
	b := f.Write()
	g, err := wReparse(b)
	if err != nil {
		t.Fail("written font does not parse", "%s: %v", desc, err)
		return false
	}
	if c, d := sut.Diff(sut.Observe(f, o), sut.Observe(g, o)); c != "" {
		t.Fail(c, "%s: in memory and written: %s", desc, d)
		return false
	}
	if f.OS2 != nil && g.OS2 != nil && f.OS2.Version <= 1 {
		// not part of the table, estimated from the glyphs when parsing
		os2 := *g.OS2
		os2.SxHeight, os2.SCapHeight = f.OS2.SxHeight, f.OS2.SCapHeight
		g.OS2 = &os2
	}
	if d := fieldDiff(reflect.ValueOf(f), reflect.ValueOf(g), "font", c10skip); d != "" {
		t.Fail("field", "%s: in memory and written: %s", desc, d)
		return false
	}
	if f.CFF != nil {
		if d := cffDiff(f, g); d != "" {
			t.Fail("dictionary "+strings.Fields(d)[0], "%s: in memory and written: %s", desc, d)
			return false
		}
	}
	return true
}

var c10offsets = map[string]bool{"Charset": true, "Encoding": true, "CharStrings": true, "PrivateOffset": true, "PrivateLength": true, "FDArray": true, "FDSelect": true, "Vstore": true, "Subrs": true}

// cffDiff compares the dictionaries, except offsets.
func cffDiff(f, g *font.SFNT) string {
	if d := fieldDiff(reflect.ValueOf(f.CFF.TopDICT()), reflect.ValueOf(g.CFF.TopDICT()), "top", c10offsets); d != "" {
		return d
	}
	for i := 0; i < int(f.NumGlyphs()); i++ {
		x, err1 := f.CFF.PrivateDICT(uint16(i))
		y, err2 := g.CFF.PrivateDICT(uint16(i))
		if (err1 != nil) != (err2 != nil) {
			return fmt.Sprintf("private dictionary of glyph %d: errors %v and %v", i, err1, err2)
		} else if err1 == nil {
			if d := fieldDiff(reflect.ValueOf(x), reflect.ValueOf(y), fmt.Sprintf("private(%d)", i), c10offsets); d != "" {
				return d
			}
		}
	}
	return ""
}

func c10(e *core.Env) {
	roots := wFonts()
	ops := wOps(roots)
	depth := 3
	for _, r := range roots {
		for i := range ops {
			e.Case(fmt.Sprintf("%s, %s", r.name, ops[i].name), func(t *core.T) {
				var last func(int) bool
				if !t.E.Thorough {
					last = func(k int) bool { return (k+i)%5 == 0 || k >= len(ops)-8 }
				}
				explore(t, r, ops, []int{i}, depth, last, func(desc string, mk func() *font.SFNT) bool {
					f := mk()
					return f != nil && same10(t, desc, f, sut.Opt{Runes: wProbes, Names: wNames})
				})
			})
		}
	}
	c10dicts(e)
	e.Wait()
}

// c10dicts enumerates the fields of the top and private dictionaries with values
// of every encoding, through every operation that writes the CFF table anew.
func c10dicts(e *core.Env) {
	ints := []string{"1", "-1", "107", "-107", "108", "-108", "1131", "-1131", "1132", "-1132", "32767", "-32767", "-32768", "32768", "-32769", "100000", "1000000", "1234567", "100000000", "-1000000000", "2147483647", "-2147483648"}
	reals := []string{"0.5", "-0.5", ".25", "1.5", "0.001", "5E-4", "0.00048828125", "0.0009765625", "0.333333333333", "0.0001234567", "1.5E-7", "-3.25E-5", "123456.75", "1234567.5", "-32768.5", "1E10", "2.5E12", "100.125"}
	all := append(append([]string{}, ints...), reals...)
	type field struct {
		top  bool
		op   int
		n    int // operands, 0 for a list
		vals []string
	}
	fields := []field{
		{true, 256 + 1, 1, []string{"0", "1"}}, {true, 256 + 2, 1, all}, {true, 256 + 3, 1, all}, {true, 256 + 4, 1, all},
		{true, 256 + 5, 1, []string{"0", "1", "2"}}, {true, 256 + 7, 6, all}, {true, 13, 1, ints}, {true, 5, 4, all}, {true, 256 + 8, 1, all},
		{true, 14, 0, ints}, {true, 0, 1, []string{"0", "1", "390"}}, {true, 1, 1, []string{"1", "390"}}, {true, 256 + 0, 1, []string{"1", "390"}},
		{true, 3, 1, []string{"1", "390"}}, {true, 4, 1, []string{"1", "390"}}, {true, 256 + 21, 1, []string{"1", "390"}}, {true, 256 + 22, 1, []string{"1", "390"}},
		{true, 256 + 23, 0, ints},
		{false, 7, 0, all}, {false, 8, 0, all}, {false, 9, 0, all}, {false, 256 + 10, 1, all}, {false, 256 + 11, 1, all}, {false, 10, 1, all},
		{false, 256 + 12, 0, all}, {false, 256 + 13, 0, all}, {false, 256 + 14, 1, []string{"0", "1"}}, {false, 256 + 17, 1, []string{"0", "1"}},
		{false, 256 + 18, 1, all}, {false, 256 + 19, 1, ints}, {false, 20, 1, all}, {false, 21, 1, all},
	}
	routes := []struct {
		name string
		run  func(f *font.SFNT) (*font.SFNT, error)
	}{
		{"rename", func(f *font.SFNT) (*font.SFNT, error) {
			return f, f.SetGlyphNames([]string{".notdef", "first", "second", "third", "fourth"})
		}},
		{"subset", func(f *font.SFNT) (*font.SFNT, error) {
			return f.Subset([]uint16{0, 1, 3}, font.SubsetOptions{Tables: font.KeepAllTables})
		}},
		{"merge", func(f *font.SFNT) (*font.SFNT, error) {
			g, err := font.ParseSFNT(f.Write(), 0)
			if err != nil {
				return nil, err
			}
			return f, f.Merge(g, font.MergeOptions{RearrangeCmap: true})
		}},
	}
	for _, fd := range fields {
		where := map[bool]string{true: "top", false: "private"}[fd.top]
		e.Case(fmt.Sprintf("%s dictionary operator %d", where, fd.op), func(t *core.T) {
			for vi := range fd.vals {
				var lists [][]string
				switch fd.n {
				case 0: // lists with the value at every position
					v := fd.vals[vi]
					lists = [][]string{{v}, {v, "3"}, {"3", v}, {v, v}, {"1", v, "2", "700"}}
				case 1:
					lists = [][]string{{fd.vals[vi]}}
				default:
					for k := 0; k < fd.n; k++ {
						l := make([]string, fd.n)
						for i := range l {
							l[i] = "0"
						}
						l[k] = fd.vals[vi]
						lists = append(lists, l)
					}
				}
				for _, l := range lists {
					entry := ref.DictEntry(fd.op, l...)
					ci := ref.CFFInfo{}
					if fd.top {
						ci.TopExtra = entry
					} else {
						ci.PrivExtra = entry
					}
					b := cffSrcFont([][]byte{padCS(6), padCS(9), padCS(12), padCS(15), padCS(18)}, ci).SFNT()
					for _, rt := range routes {
						desc := fmt.Sprintf("%s dictionary operator %d = %v, %s", where, fd.op, l, rt.name)
						f, err := font.ParseSFNT(clone(b), 0)
						if err != nil {
							t.Fail("parse", "%s: %v", desc, err)
							return
						}
						g, err := rt.run(f)
						t.Trans(1)
						t.State(desc)
						if err != nil {
							t.Fail("operation", "%s: %v", desc, err)
							return
						}
						if !same10(t, desc, g, sut.Opt{}) {
							return
						}
						t.Trace()
					}
				}
			}
		})
	}
}
