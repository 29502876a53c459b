// Package checks holds the property checks. Each enumerates a bounded space of inputs and operation
// sequences exhaustively, executes every one on the real library and compares with the reference model.
package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"verifmc/ref"
)

func repoDir() string { return "/repo" }

func resource(name string) []byte {
	b, err := os.ReadFile(filepath.Join(repoDir(), name))
	if err != nil {
		panic(fmt.Sprintf("cannot read %s: %v", name, err))
	}
	return b
}

// sq is a square contour.
func sq(x, y, s int16) []ref.Point {
	return []ref.Point{{X: x, Y: y, On: true}, {X: x + s, Y: y, On: true}, {X: x + s, Y: y + s, On: true}, {X: x, Y: y + s, On: true}}
}

// plain returns n distinguishable simple glyphs.
func plain(n int) []ref.Glyph {
	g := make([]ref.Glyph, n)
	for i := range g {
		g[i].Contours = [][]ref.Point{sq(int16(4*i), int16(8*i), int16(100+4*i))}
	}
	return g
}

func cmap4(m map[rune]uint16) ([]ref.CmapSub, []ref.CmapRec) {
	return []ref.CmapSub{{Format: 4, Map: m}}, []ref.CmapRec{{Platform: 3, Encoding: 1, Sub: 0}}
}

func cmap12(m map[rune]uint16) ([]ref.CmapSub, []ref.CmapRec) {
	return []ref.CmapSub{{Format: 12, Map: m}}, []ref.CmapRec{{Platform: 3, Encoding: 10, Sub: 0}}
}

func sortedRunes(m map[rune]bool) []rune {
	out := make([]rune, 0, len(m))
	for r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

// chunk splits n into ranges of at most size.
func chunk(n, size int, fn func(lo, hi int)) {
	for lo := 0; lo < n; lo += size {
		fn(lo, min(n, lo+size))
	}
}
