package checks

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/golang/freetype/truetype"
	"github.com/tdewolff/font"
	xsfnt "golang.org/x/image/font/sfnt"

	"verifmc/core"
	"verifmc/ref"
)

// c02conv converts the fonts of other libraries: with every selection of the optional tables, and every length of them modulo four.
func c02conv(e *core.Env) {
	optional := []string{"cvt ", "fpgm", "prep", "hdmx", "name", "OS/2", "vmtx"}
	kept := map[string]bool{"cmap": true, "glyf": true, "head": true, "hhea": true, "hmtx": true, "kern": true, "loca": true, "maxp": true}
	for _, o := range optional {
		kept[o] = true
	}
	for kern := 0; kern < 2; kern++ {
		for pad := 0; pad < 4; pad++ {
			e.Case(fmt.Sprintf("converted/%d/%d", kern, pad), func(t *core.T) {
				for mask := 0; mask < 1<<len(optional); mask++ {
					src := &ref.Font{Glyphs: []ref.Glyph{{}, {Contours: [][]ref.Point{sq(0, 0, 100)}}, {Contours: [][]ref.Point{pts(0b1011, 4, 9)}}, {Comps: []ref.Component{{GID: 1, Dx: 4}}}}, LongLoca: pad%2 == 0, PostVer: 3}
					src.Subs, src.Recs = cmap4(map[rune]uint16{'A': 1, 'B': 2})
					tables := rawTables(src.SFNT())
					if tables["cmap"] == nil || tables["name"] == nil || tables["OS/2"] == nil {
						panic("tables of the builder")
					}
					if kern == 1 {
						tables["kern"] = []byte{0, 0, 0, 1, 0, 0, 0, 20, 0, 1, 0, 1, 0, 6, 0, 0, 0, 0, 0, 1, 0, 2, 0xFF, 0xF0}
					}
					for k, o := range optional {
						if mask>>k&1 == 0 {
							delete(tables, o)
						} else if o != "name" && o != "OS/2" {
							tables[o] = bytes.Repeat([]byte{byte(k + 1), 0xFE}, 10)[:16+(pad+k)%4]
						}
					}
					tables["gasp"] = []byte{0, 1, 0, 0}
					var order []string
					for k := range tables {
						order = append(order, k)
					}
					sort.Strings(order)
					b := layoutSFNT("\x00\x01\x00\x00", tables, order, order, 0, 0, false, false)
					desc := fmt.Sprintf("optional tables %x, kern %d, lengths %d", mask, kern, pad)
					t.State(desc)
					ft, err := truetype.Parse(clone(b))
					if err != nil {
						panic(fmt.Sprintf("%s: %v", desc, err))
					}
					out := font.FromGoFreetype(ft)
					t.Trans(1)
					_, got, err := ref.ReadDir(out)
					if err != nil {
						t.Fail("converted: malformed", "%s: %v", desc, err)
						return
					}
					if string(out[:4]) != "\x00\x01\x00\x00" {
						t.Fail("converted: version", "%s: %q", desc, out[:4])
					}
					for tag, w := range tables {
						if !kept[tag] {
							continue
						}
						g, ok := got[tag]
						if tag == "head" && ok {
							g, w = clone(g), clone(w)
							copy(g[8:12], w[8:12])
						}
						if !ok || !bytes.Equal(g, w) {
							t.Fail("converted: content", "%s: table %q is %s instead of %s", desc, tag, clip(g), clip(w))
						}
					}
					for tag := range got {
						if tag != "post" && (tables[tag] == nil || !kept[tag]) {
							t.Fail("converted: tables", "%s: table %q was not there", desc, tag)
						}
					}
					if tables["name"] != nil && tables["OS/2"] != nil && tables["vmtx"] == nil && tables["hdmx"] == nil {
						s, err := font.ParseSFNT(clone(out), 0)
						if err != nil {
							t.Fail("converted: rejected", "%s: %v", desc, err)
							return
						}
						if !wellWritten(t, desc+", converted and parsed", s, true) {
							return
						}
					}
					xs, err := xsfnt.Parse(b)
					if err == nil && !bytes.Equal(font.FromGoSFNT(xs), b) {
						t.Fail("converted: bytes", "%s: not the bytes that were parsed", desc)
					}
					t.Trace()
				}
			})
		}
	}
}
