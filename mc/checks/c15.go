package checks

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Check{
		ID:  "C15",
		Run: c15,
		Rule: "the product of boundary values of all line metric sources, every split of the metrics tables up to a glyph count, and every field of every table version is written into font bytes; " +
			"the reported values are compared with the documented selection and the stored values",
		Assumptions: []string{
			"the documented selection of line metrics: win values when both are non-zero, typo values under USE_TYPO_METRICS when ascender is positive and descender negative, hhea values otherwise; " +
				"with win values the gap is hhea's total height and gap minus the win height, at least 0; every result is clamped at 0",
		},
	})
}

// tableOffset finds a table in sfnt bytes.
func tableOffset(b []byte, tag string) int {
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		if string(b[12+16*i:16+16*i]) == tag {
			return int(binary.BigEndian.Uint32(b[12+16*i+8:]))
		}
	}
	return -1
}

func wantVM(asc, desc, gap int, os2 bool, tasc, tdesc, tgap, wasc, wdesc int, typo bool) [3]int {
	a, d, g := max(asc, 0), max(-desc, 0), max(gap, 0)
	if os2 {
		if typo {
			if tasc > 0 && tdesc < 0 {
				a, d, g = tasc, -tdesc, max(tgap, 0)
			}
		} else if wasc != 0 && wdesc != 0 {
			a, d = wasc, wdesc
			g = max(0, asc-desc+gap-wasc-wdesc)
		}
	}
	return [3]int{a, d, g}
}

type fieldSpec struct {
	name string
	off  int
	size int
}

func seqFields(off int, size int, names ...string) []fieldSpec {
	var out []fieldSpec
	for _, n := range names {
		out = append(out, fieldSpec{n, off, size})
		off += size
	}
	return out
}

// fieldCheck writes every value into every field and compares all reported fields.
func fieldCheck(t *core.T, desc string, b []byte, tag string, specs []fieldSpec, get func(s *font.SFNT) any, skip func(name string, v uint32) bool) {
	off := tableOffset(b, tag)
	try := func(d string) {
		s, err := font.ParseSFNT(b, 0)
		t.Trans(1)
		if err != nil {
			t.Fail("rejected", "%s: %s: %v", desc, d, err)
			return
		}
		v := reflect.ValueOf(get(s)).Elem()
		for _, f := range specs {
			want := uint64(0)
			for k := 0; k < f.size; k++ {
				want = want<<8 | uint64(b[off+f.off+k])
			}
			fv := v.FieldByName(f.name)
			if !fv.IsValid() {
				t.Fail("harness", "no field %s", f.name)
				return
			}
			var got uint64
			if fv.CanInt() {
				got = uint64(fv.Int()) & (1<<(8*f.size) - 1)
				if fv.Int() < 0 && f.size == 2 && fv.Int() != int64(int16(want)) {
					got = ^got
				}
			} else {
				got = fv.Uint()
			}
			if got != want {
				t.Fail("field", "%s: %s: field %s is %#x, stored %#x", desc, d, f.name, got, want)
			}
		}
	}
	t.StateB(b[off:])
	t.Trace()
	try("as built")
	for _, f := range specs {
		old := append([]byte{}, b[off+f.off:off+f.off+f.size]...)
		for _, v := range []uint32{0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x1234, 0x7FFF, 0x8000, 0xABCD, 0xFFFF, 0x12345678, 0x80000000, 0xFFFFFFFF} {
			if f.size < 4 && v>>(8*f.size) != 0 || skip != nil && skip(f.name, v) {
				continue
			}
			for k := 0; k < f.size; k++ {
				b[off+f.off+k] = byte(v >> (8 * (f.size - 1 - k)))
			}
			try(fmt.Sprintf("%s = %#x", f.name, v))
		}
		copy(b[off+f.off:], old)
	}
}

func c15(e *core.Env) {
	mkOS2 := func() *ref.OS2 { return &ref.OS2{Version: 4, Weight: 400, Width: 5} }
	// line metrics
	hv := []int{0, 1, -1, 700, -200, 32767, -32768}
	tv := []int{0, 5, -5, 32767, -32768}
	wv := []int{0, 1, 900, 65535}
	for ai, asc := range hv {
		for di, desc := range hv {
			asc, desc := asc, desc
			e.Case(fmt.Sprintf("line/%d-%d", ai, di), func(t *core.T) {
				f := &ref.Font{Glyphs: plain(2), OS2: mkOS2()}
				f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1})
				b := f.SFNT()
				hh, os2 := tableOffset(b, "hhea"), tableOffset(b, "OS/2")
				p16 := func(o, v int) { binary.BigEndian.PutUint16(b[o:], uint16(v)) }
				p16(hh+4, asc)
				p16(hh+6, desc)
				for _, gap := range hv {
					p16(hh+8, gap)
					for flag := 0; flag < 4; flag++ {
						typo := flag&1 != 0
						fs := 0x40
						if typo {
							fs |= 0x80
						}
						if flag&2 != 0 {
							if !e.Thorough {
								continue
							}
							fs |= 0xFF00
							fs &^= 0x40
						}
						p16(os2+62, fs)
						for _, ta := range tv {
							p16(os2+68, ta)
							for _, td := range tv {
								p16(os2+70, td)
								for _, tg := range tv {
									if !typo && tg != tv[0] && tg != tv[3] && !e.Thorough {
										continue
									}
									p16(os2+72, tg)
									for _, wa := range wv {
										p16(os2+74, wa)
										for _, wd := range wv {
											if typo && wd != 0 && wd != 900 && !e.Thorough {
												continue
											}
											p16(os2+76, wd)
											s, err := font.ParseSFNT(b, 0)
											if err != nil {
												t.Fail("rejected", "%v", err)
												return
											}
											a, d, g := s.VerticalMetrics()
											w := wantVM(asc, desc, gap, true, ta, td, tg, wa, wd, typo)
											if int(a) != w[0] || int(d) != w[1] || min(65535, w[2]) != int(g) {
												t.Fail("line metrics", "hhea (%d,%d,%d), typo (%d,%d,%d) use %v, win (%d,%d): reported (%d,%d,%d), expected %v", asc, desc, gap, ta, td, tg, typo, wa, wd, a, d, g, w)
											}
											t.Trans(1)
										}
									}
								}
							}
						}
					}
					t.State(fmt.Sprint(asc, desc, gap))
					t.Trace()
				}
			})
		}
	}
	e.Case("line/no OS2", func(t *core.T) {
		for _, asc := range hv {
			for _, desc := range hv {
				for _, gap := range hv {
					for cff := 0; cff < 2; cff++ {
						f := &ref.Font{Glyphs: plain(2), NoOS2: true, Asc: int16(asc), Desc: int16(desc), Gap: int16(gap)}
						if cff == 1 {
							f.CFF = true
						}
						f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1})
						s, err := font.ParseSFNT(f.SFNT(), 0)
						if err != nil {
							t.Fail("rejected", "font without OS/2: %v", err)
							return
						}
						a, d, g := s.VerticalMetrics()
						if w := wantVM(asc, desc, gap, false, 0, 0, 0, 0, 0, false); [3]int{int(a), int(d), int(g)} != w {
							t.Fail("line metrics", "hhea (%d,%d,%d) without OS/2: reported (%d,%d,%d)", asc, desc, gap, a, d, g)
						}
						t.Trans(1)
					}
				}
			}
		}
		t.Trace()
	})
	// OS/2 version 0 without the typo and win fields
	e.Case("line/short OS2", func(t *core.T) {
		f := &ref.Font{Glyphs: plain(2), Asc: 701, Desc: -202, Gap: 33}
		f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1})
		tb := f.Tables()
		tb["OS/2"] = (&ref.OS2{Version: 0, FsSelection: 0x80}).Bytes()[:68]
		s, err := font.ParseSFNT(ref.BuildSFNT("true", tb), 0)
		if err != nil {
			t.Fail("rejected", "%v", err)
			return
		}
		if a, d, g := s.VerticalMetrics(); a != 701 || d != 202 || g != 33 {
			t.Fail("line metrics", "short OS/2: %d %d %d", a, d, g)
		}
		t.Trans(1)
	})
	// metrics tables
	type sz struct{ n, nhm, nvm int }
	var szs []sz
	maxN := 6
	if e.Thorough {
		maxN = 10
	}
	for n := 1; n <= maxN; n++ {
		for h := 1; h <= n; h++ {
			for v := 0; v <= n; v++ {
				szs = append(szs, sz{n, h, v})
			}
		}
	}
	szs = append(szs, sz{255, 255, 254}, sz{256, 255, 256}, sz{257, 256, 1}, sz{1000, 1, 999}, sz{65535, 65535, 0}, sz{65535, 65534, 0}, sz{65535, 1, 65535}, sz{65535, 32768, 32767})
	for _, c := range szs {
		for kind := 0; kind < 3; kind++ {
			c, kind := c, kind
			if c.n > 1000 && kind == 2 {
				continue
			}
			e.Case(fmt.Sprintf("tables/%d-%d-%d/%d", c.n, c.nhm, c.nvm, kind), func(t *core.T) {
				f := &ref.Font{Glyphs: make([]ref.Glyph, c.n), NHM: c.nhm, NVM: c.nvm, UPM: uint16([]int{16, 1000, 65535}[kind])}
				if kind == 2 {
					f.CFF = true
				}
				f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 0})
				val := func(i, salt int) int {
					if kind == 1 {
						return []int{0, 65535, 32768, 32767, 1, 65534, 256}[(i+salt)%7]
					}
					return (i*7 + salt*1000 + 1) & 0xFFFF
				}
				for i := 0; i < c.n; i++ {
					f.Adv = append(f.Adv, uint16(val(i, 1)))
					f.LSB = append(f.LSB, int16(val(i, 2)))
					if c.nvm > 0 {
						f.VAdv = append(f.VAdv, uint16(val(i, 3)))
						f.TSB = append(f.TSB, int16(val(i, 4)))
					}
				}
				s, err := font.ParseSFNT(f.SFNT(), 0)
				if err != nil {
					t.Fail("rejected", "%+v: %v", c, err)
					return
				}
				if s.NumGlyphs() != uint16(c.n) || s.UnitsPerEm() != f.UPM {
					t.Fail("glyph count", "%+v: %d glyphs, %d units per em", c, s.NumGlyphs(), s.UnitsPerEm())
				}
				ids := []int{}
				for i := 0; i < c.n+2 && i < 65536; i++ {
					ids = append(ids, i)
				}
				for _, i := range append(ids, 254, 255, 256, 257, 32767, 32768, 65534, 65535) {
					g := uint16(i)
					wa := int(f.Adv[min(i, c.nhm-1)])
					wv := int(f.UPM)
					if c.nvm > 0 {
						wv = int(f.VAdv[min(i, c.nvm-1)])
					}
					if a, v := int(s.GlyphAdvance(g)), int(s.GlyphVerticalAdvance(g)); a != wa || v != wv {
						t.Fail("advance", "%+v: glyph %d advances %d and %d, tabulated %d and %d", c, i, a, v, wa, wv)
						return
					}
					if i < c.n {
						if l := s.Hmtx.LeftSideBearing(g); l != f.LSB[i] {
							t.Fail("bearing", "%+v: glyph %d left side bearing %d, tabulated %d", c, i, l, f.LSB[i])
							return
						}
						if c.nvm > 0 {
							if l := s.Vmtx.TopSideBearing(g); l != f.TSB[i] {
								t.Fail("bearing", "%+v: glyph %d top side bearing %d, tabulated %d", c, i, l, f.TSB[i])
								return
							}
						}
					}
					t.Trans(4)
				}
				t.State(fmt.Sprint(c, kind))
				t.Trace()
			})
		}
	}
	// fields
	mkFont := func(o *ref.OS2) *ref.Font {
		f := &ref.Font{Glyphs: plain(3), OS2: o, VAdv: []uint16{1, 2, 3}, TSB: []int16{4, 5, 6}, Asc: 800, Desc: -300, Gap: 7, UnderPos: -90, UnderThk: 40, Fixed: 1}
		f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1, 'x': 1, 'H': 2})
		return f
	}
	for ver := 0; ver <= 5; ver++ {
		ver := ver
		e.Case(fmt.Sprintf("fields/OS2/%d", ver), func(t *core.T) {
			o := &ref.OS2{Version: ver, XAvg: 101, Weight: 402, Width: 5, FsType: 8, Range: [4]uint32{1, 2, 3, 4}, FsSelection: 0x41, First: 33, Last: 44, TypoAsc: 55, TypoDesc: -66, TypoGap: 77, WinAsc: 88, WinDesc: 99,
				CodePage: [2]uint32{110, 121}, XHeight: 132, CapHeight: 143, DefaultChar: 154, BreakChar: 165, MaxContext: 176, LowerOpt: 187, UpperOpt: 198}
			sp := seqFields(2, 2, "XAvgCharWidth", "UsWeightClass", "UsWidthClass", "FsType", "YSubscriptXSize", "YSubscriptYSize", "YSubscriptXOffset", "YSubscriptYOffset", "YSuperscriptXSize", "YSuperscriptYSize",
				"YSuperscriptXOffset", "YSuperscriptYOffset", "YStrikeoutSize", "YStrikeoutPosition", "SFamilyClass")
			sp = append(sp, seqFields(32, 1, "BFamilyType", "BSerifStyle", "BWeight", "BProportion", "BContrast", "BStrokeVariation", "BArmStyle", "BLetterform", "BMidline", "BXHeight")...)
			sp = append(sp, seqFields(42, 4, "UlUnicodeRange1", "UlUnicodeRange2", "UlUnicodeRange3", "UlUnicodeRange4")...)
			sp = append(sp, seqFields(62, 2, "FsSelection", "UsFirstCharIndex", "UsLastCharIndex", "STypoAscender", "STypoDescender", "STypoLineGap", "UsWinAscent", "UsWinDescent")...)
			if ver >= 1 {
				sp = append(sp, seqFields(78, 4, "UlCodePageRange1", "UlCodePageRange2")...)
			}
			if ver >= 2 {
				sp = append(sp, seqFields(86, 2, "SxHeight", "SCapHeight", "UsDefaultChar", "UsBreakChar", "UsMaxContent")...)
			}
			if ver >= 5 {
				sp = append(sp, seqFields(96, 2, "UsLowerOpticalPointSize", "UsUpperOpticalPointSize")...)
			}
			fieldCheck(t, fmt.Sprintf("OS/2 version %d", ver), mkFont(o).SFNT(), "OS/2", sp, func(s *font.SFNT) any { return s.OS2 }, nil)
			s, err := font.ParseSFNT(mkFont(o).SFNT(), 0)
			if err == nil && string(s.OS2.AchVendID[:]) != "VRFY" {
				t.Fail("field", "vendor %q", s.OS2.AchVendID)
			}
			if err == nil && s.OS2.Version != uint16(ver) {
				t.Fail("field", "version %d", s.OS2.Version)
			}
		})
	}
	e.Case("fields/hhea", func(t *core.T) {
		sp := seqFields(4, 2, "Ascender", "Descender", "LineGap", "AdvanceWidthMax", "MinLeftSideBearing", "MinRightSideBearing", "XMaxExtent", "CaretSlopeRise", "CaretSlopeRun", "CaretOffset")
		sp = append(sp, fieldSpec{"MetricDataFormat", 32, 2}, fieldSpec{"NumberOfHMetrics", 34, 2})
		fieldCheck(t, "hhea", mkFont(nil).SFNT(), "hhea", sp, func(s *font.SFNT) any { return s.Hhea }, func(n string, v uint32) bool { return n == "NumberOfHMetrics" })
	})
	e.Case("fields/vhea", func(t *core.T) {
		sp := seqFields(4, 2, "Ascender", "Descender", "LineGap", "AdvanceHeightMax", "MinTopSideBearing", "MinBottomSideBearing", "YMaxExtent", "CaretSlopeRise", "CaretSlopeRun", "CaretOffset")
		sp = append(sp, fieldSpec{"MetricDataFormat", 32, 2}, fieldSpec{"NumberOfVMetrics", 34, 2})
		fieldCheck(t, "vhea", mkFont(nil).SFNT(), "vhea", sp, func(s *font.SFNT) any { return s.Vhea }, func(n string, v uint32) bool { return n == "NumberOfVMetrics" })
	})
	e.Case("fields/maxp", func(t *core.T) {
		sp := append([]fieldSpec{{"Version", 0, 4}, {"NumGlyphs", 4, 2}}, seqFields(6, 2, "MaxPoints", "MaxContours", "MaxCompositePoints", "MaxCompositeContours", "MaxZones", "MaxTwilightPoints", "MaxStorage", "MaxFunctionDefs", "MaxInstructionDefs",
			"MaxStackElements", "MaxSizeOfInstructions", "MaxComponentElements", "MaxComponentDepth")...)
		fieldCheck(t, "maxp", mkFont(nil).SFNT(), "maxp", sp, func(s *font.SFNT) any { return s.Maxp }, func(n string, v uint32) bool { return n == "Version" || n == "NumGlyphs" })
	})
	e.Case("fields/head", func(t *core.T) {
		sp := []fieldSpec{{"FontRevision", 4, 4}, {"UnitsPerEm", 18, 2}, {"XMin", 36, 2}, {"YMin", 38, 2}, {"XMax", 40, 2}, {"YMax", 42, 2}, {"LowestRecPPEM", 46, 2}, {"FontDirectionHint", 48, 2}, {"IndexToLocFormat", 50, 2}, {"GlyphDataFormat", 52, 2}}
		fieldCheck(t, "head", mkFont(nil).SFNT(), "head", sp, func(s *font.SFNT) any { return s.Head }, func(n string, v uint32) bool { return n == "IndexToLocFormat" })
		// flag words and dates
		for i := 0; i < 16; i++ {
			b := mkFont(nil).SFNT()
			h := tableOffset(b, "head")
			binary.BigEndian.PutUint16(b[h+16:], 1<<i)
			binary.BigEndian.PutUint16(b[h+44:], 1<<(15-i))
			created, modified := uint64(1)<<(2*i), uint64(3)<<(31-i)
			binary.BigEndian.PutUint64(b[h+20:], created)
			binary.BigEndian.PutUint64(b[h+28:], modified)
			s, err := font.ParseSFNT(b, 0)
			if err != nil {
				t.Fail("rejected", "%v", err)
				return
			}
			for k := 0; k < 16; k++ {
				if s.Head.Flags[k] != (k == i) || s.Head.MacStyle[k] != (k == 15-i) {
					t.Fail("field", "flag bit %d: %v %v", i, s.Head.Flags, s.Head.MacStyle)
				}
			}
			epoch := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
			if s.Head.Created.Unix() != epoch.Unix()+int64(created) || s.Head.Modified.Unix() != epoch.Unix()+int64(modified) {
				t.Fail("field", "dates %v %v of %d %d", s.Head.Created, s.Head.Modified, created, modified)
			}
			t.Trans(1)
		}
	})
	e.Case("fields/head dates", func(t *core.T) {
		b := mkFont(nil).SFNT()
		h := tableOffset(b, "head")
		epoch := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
		dates := []int64{0, 1, -epoch.Unix() - 1, -epoch.Unix(), -epoch.Unix() + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 9223372036, 9223372037, 1 << 34}
		for y := 1904; y < 10000; y += 12 {
			dates = append(dates, time.Date(y, 2, 29, 23, 59, 59, 0, time.UTC).Unix()-epoch.Unix())
		}
		for _, created := range dates {
			for k, modified := range []int64{0, created, dates[len(dates)-1] - created} {
				binary.BigEndian.PutUint64(b[h+20:], uint64(created))
				binary.BigEndian.PutUint64(b[h+28:], uint64(max(modified, 0)))
				s, err := font.ParseSFNT(b, 0)
				t.Trans(1)
				if err != nil {
					t.Fail("rejected", "dates %d %d: %v", created, modified, err)
					return
				}
				if s.Head.Created.Unix() != epoch.Unix()+created || s.Head.Modified.Unix() != epoch.Unix()+max(modified, 0) {
					t.Fail("field", "dates %v %v of %d %d (%d)", s.Head.Created, s.Head.Modified, created, modified, k)
				}
			}
		}
		t.Trace()
	})
	e.Case("fields/post", func(t *core.T) {
		sp := []fieldSpec{{"UnderlinePosition", 8, 2}, {"UnderlineThickness", 10, 2}, {"IsFixedPitch", 12, 4}, {"MinMemType42", 16, 4}, {"MaxMemType42", 20, 4}, {"MinMemType1", 24, 4}, {"MaxMemType1", 28, 4}}
		for pv := 1; pv <= 3; pv++ {
			f := mkFont(nil)
			f.PostVer = pv
			f.Names = []string{".notdef", "A", "longer"}
			fieldCheck(t, fmt.Sprintf("post version %d", pv), f.SFNT(), "post", sp, func(s *font.SFNT) any { return s.Post }, nil)
			for _, v := range []int32{0, 1, -1, 65536, -65536, -0xC8000, 0x7FFFFFFF, -0x80000000, -786432, 98304} {
				f.Italic = v
				s, err := font.ParseSFNT(f.SFNT(), 0)
				if err != nil || s.Post.ItalicAngle != float64(v)/65536 {
					t.Fail("field", "italic angle %#x: %v %v", v, s.Post.ItalicAngle, err)
				}
				t.Trans(1)
			}
		}
	})
	for _, name := range []string{"resources/DejaVuSerif.ttf", "resources/EBGaramond12-Regular.otf"} {
		name := name
		e.Case("real/"+name, func(t *core.T) {
			b := resource(name)
			_, tabs, err := ref.ReadDir(b)
			if err != nil {
				t.Fail("harness", "%v", err)
				return
			}
			s, err := font.ParseSFNT(b, 0)
			if err != nil {
				t.Fail("rejected", "%v", err)
				return
			}
			n := int(binary.BigEndian.Uint16(tabs["maxp"][4:]))
			nhm := int(binary.BigEndian.Uint16(tabs["hhea"][34:]))
			hm := tabs["hmtx"]
			for i := 0; i < n; i++ {
				a := binary.BigEndian.Uint16(hm[4*min(i, nhm-1):])
				var l int16
				if i < nhm {
					l = int16(binary.BigEndian.Uint16(hm[4*i+2:]))
				} else {
					l = int16(binary.BigEndian.Uint16(hm[4*nhm+2*(i-nhm):]))
				}
				if s.GlyphAdvance(uint16(i)) != a || s.Hmtx.LeftSideBearing(uint16(i)) != l {
					t.Fail("advance", "glyph %d: %d %d instead of %d %d", i, s.GlyphAdvance(uint16(i)), s.Hmtx.LeftSideBearing(uint16(i)), a, l)
				}
				t.Trans(2)
			}
			t.Trace()
		})
	}
}
