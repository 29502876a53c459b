package checks

import (
	"fmt"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Check{
		ID:  "C14",
		Run: c14,
		Rule: "every ordered pair list over a small key set, every sequence of up to three (thorough: four) subtables over an alphabet of kinds, and every pair count around the size limits is encoded in both header versions; " +
			"the kerning of every pair of a grid is compared with the combination computed from the subtables' definition",
		Assumptions: []string{
			"vertical, cross-stream and override subtables are outside the space",
			"sums stay within 16 bits",
			"no subtable lists a pair twice with different values",
		},
	})
}

// kernBase holds the tables of a font without kern table.
func kernBase(n int) map[string][]byte {
	f := &ref.Font{Glyphs: plain(n)}
	f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1})
	return f.Tables()
}

func kernWant(subs []ref.KernSub, l, r uint16) int16 {
	v := 0
	for _, s := range subs {
		if s.Raw != nil || s.Version != 0 || s.Format != 0 {
			continue
		}
		for _, p := range s.Pairs {
			if p.L == l && p.R == r {
				if s.Coverage&2 != 0 {
					v = max(v, int(p.V))
				} else {
					v += int(p.V)
				}
				break
			}
		}
	}
	return int16(v)
}

var kernGrid = []uint16{0, 1, 2, 3, 4, 5, 255, 256, 257, 65534, 65535}

func c14Try(t *core.T, desc string, base map[string][]byte, ver int, subs []ref.KernSub, raw []byte, grid []uint16) {
	tb := map[string][]byte{}
	for k, v := range base {
		tb[k] = v
	}
	tb["kern"] = raw
	if raw == nil {
		tb["kern"] = ref.KernTable(ver, subs)
	}
	t.StateB(tb["kern"])
	t.Trace()
	s, err := font.ParseSFNT(ref.BuildSFNT("\x00\x01\x00\x00", tb), 0)
	if err != nil {
		t.Fail("rejected", "%s: font rejected: %v", desc, err)
		return
	}
	// expected values through maps, first entry wins
	type sub struct {
		min bool
		m   map[uint32]int16
	}
	var ws []sub
	for _, x := range subs {
		if x.Raw != nil || x.Version != 0 || x.Format != 0 {
			continue
		}
		m := make(map[uint32]int16, len(x.Pairs))
		for _, p := range x.Pairs {
			k := uint32(p.L)<<16 | uint32(p.R)
			if _, ok := m[k]; !ok {
				m[k] = p.V
			}
		}
		ws = append(ws, sub{ver == 0 && x.Coverage&2 != 0, m})
	}
	check := func(l, r uint16) bool {
		want := 0
		for _, w := range ws {
			if v, ok := w.m[uint32(l)<<16|uint32(r)]; ok {
				if w.min {
					want = max(want, int(v))
				} else {
					want += int(v)
				}
			}
		}
		if got := s.Kerning(l, r); int(got) != want {
			t.Fail("value", "%s: pair (%d,%d) kerns %d instead of %d", desc, l, r, got, want)
			return false
		}
		t.Trans(1)
		return true
	}
	for _, l := range grid {
		for _, r := range grid {
			if !check(l, r) {
				return
			}
		}
	}
	if len(subs) > 0 && len(subs[0].Pairs) > 30 {
		for _, x := range subs {
			for _, p := range x.Pairs {
				if !check(p.L, p.R) || !check(p.L, p.R+1) || !check(p.L, p.R-1) || !check(p.R, p.L) {
					return
				}
			}
		}
	}
}

func c14(e *core.Env) {
	base := kernBase(6)
	// every ordered list of distinct keys out of 5, values by key
	keys := []ref.KernPair{{L: 0, R: 1, V: -7}, {L: 1, R: 0, V: 300}, {L: 1, R: 2, V: -300}, {L: 255, R: 65535, V: 1}, {L: 256, R: 0, V: 32767}, {L: 65535, R: 65535, V: -32768}}
	nk := 5
	if e.Thorough {
		nk = 6
	}
	for ver := 0; ver < 2; ver++ {
		for first := -1; first < nk; first++ {
			ver, first := ver, first
			e.Case(fmt.Sprintf("order/v%d/%d", ver, first), func(t *core.T) {
				var rec func(used int, list []ref.KernPair)
				rec = func(used int, list []ref.KernPair) {
					for _, min := range []int{1, 3} {
						if ver == 1 && min == 3 {
							continue
						}
						cov := min
						if ver == 1 {
							cov = 0
						}
						c14Try(t, fmt.Sprintf("version %d coverage %d pairs %v", ver, cov, list), base, ver, []ref.KernSub{{Coverage: cov, Pairs: list}}, nil, kernGrid)
					}
					for k := 0; k < nk; k++ {
						if used>>k&1 == 0 {
							rec(used|1<<k, append(append([]ref.KernPair{}, list...), keys[k]))
						}
					}
				}
				if first < 0 {
					c14Try(t, "no pairs", base, ver, []ref.KernSub{{Coverage: 1 - ver}}, nil, kernGrid)
					c14Try(t, "no subtables", base, ver, nil, nil, kernGrid)
				} else {
					rec(1<<first, []ref.KernPair{keys[first]})
				}
			})
		}
	}
	// sequences of subtables
	raw2 := []byte{0, 8, 0, 14, 0, 20, 0, 26, 0, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 255, 246}
	alpha := []ref.KernSub{
		{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: -50}, {L: 2, R: 1, V: 40}}},
		{Coverage: 1, Pairs: []ref.KernPair{{L: 2, R: 1, V: -60}, {L: 1, R: 2, V: -5}, {L: 3, R: 3, V: 9}}},
		{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: 11}, {L: 3, R: 3, V: -20}}, ExtraLen: 6},
		{Coverage: 3, Pairs: []ref.KernPair{{L: 1, R: 2, V: -30}, {L: 2, R: 1, V: -1}}},
		{Coverage: 3, Pairs: []ref.KernPair{{L: 3, R: 3, V: 5}}, ExtraLen: 1},
		{Coverage: 1},
		{Coverage: 1, Format: 2, Raw: raw2},
		{Coverage: 1, Version: 1, Raw: raw2},
		{Coverage: 1, Format: 3, Raw: []byte{}},
		{Coverage: 1, Format: 1, Raw: []byte{0, 1, 0, 6, 0, 0, 0, 0, 0, 1, 0, 2, 0, 77, 0}},
	}
	depth := 3
	if e.Thorough {
		depth = 4
	}
	for ver := 0; ver < 2; ver++ {
		for a := range alpha {
			ver, a := ver, a
			e.Case(fmt.Sprintf("subtables/v%d/%d", ver, a), func(t *core.T) {
				var rec func(list []ref.KernSub, names string)
				rec = func(list []ref.KernSub, names string) {
					l2 := append([]ref.KernSub{}, list...)
					if ver == 1 {
						for i := range l2 {
							if l2[i].Version != 0 || l2[i].Coverage&2 != 0 {
								return
							}
							l2[i].Coverage = 0
						}
					}
					c14Try(t, fmt.Sprintf("version %d subtables%s", ver, names), base, ver, l2, nil, []uint16{0, 1, 2, 3, 4})
					if len(list) == depth {
						return
					}
					for k := range alpha {
						rec(append(append([]ref.KernSub{}, list...), alpha[k]), fmt.Sprint(names, " ", k))
					}
				}
				rec([]ref.KernSub{alpha[a]}, fmt.Sprint(" ", a))
			})
		}
	}
	// pair counts, including those whose length does not fit
	mk := func(n, mode int) []ref.KernPair {
		ps := make([]ref.KernPair, n)
		for i := range ps {
			k := i * 3
			ps[i] = ref.KernPair{L: uint16(k / 300), R: uint16(k % 300), V: int16(i*7%2000 - 1000)}
			if ps[i].V == 0 {
				ps[i].V = 1
			}
		}
		if mode == 1 { // reverse
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ps[i], ps[j] = ps[j], ps[i]
			}
		} else if mode == 2 && n > 1 { // only the last out of order
			ps[n-1], ps[n-2] = ps[n-2], ps[n-1]
		} else if mode == 3 && n > 1 { // only the first out of order
			ps[0], ps[n-1] = ps[n-1], ps[0]
		}
		return ps
	}
	var counts []int
	for n := 0; n <= 70; n++ {
		counts = append(counts, n)
	}
	counts = append(counts, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 8191, 8192, 10917, 10918, 10919, 10920)
	over := []int{10921, 10922, 10923, 10924, 10925, 16384, 21843, 21844, 21845, 21846, 32767, 32768, 43690, 65535}
	if e.Thorough {
		for n := 71; n <= 1100; n++ {
			counts = append(counts, n)
		}
		for n := 10926; n <= 10960; n++ {
			over = append(over, n)
		}
	}
	for ver := 0; ver < 2; ver++ {
		for mode := 0; mode < 4; mode++ {
			ver, mode := ver, mode
			cov := 1 - ver
			e.Case(fmt.Sprintf("count/v%d/%d", ver, mode), func(t *core.T) {
				for _, n := range counts {
					ps := mk(n, mode)
					c14Try(t, fmt.Sprintf("version %d: %d pairs in order %d", ver, n, mode), base, ver, []ref.KernSub{{Coverage: cov, Pairs: ps}}, nil, kernGrid)
					c14Try(t, fmt.Sprintf("version %d: %d pairs in order %d and another subtable", ver, n, mode), base, ver, []ref.KernSub{{Coverage: cov, Pairs: ps}, {Coverage: cov, Pairs: mk(3, 0)}}, nil, kernGrid)
				}
			})
			e.Case(fmt.Sprintf("overflow/v%d/%d", ver, mode), func(t *core.T) {
				for _, n := range over {
					ps := mk(n, mode)
					c14Try(t, fmt.Sprintf("version %d: %d pairs in order %d", ver, n, mode), base, ver, []ref.KernSub{{Coverage: cov, Pairs: ps}}, nil, kernGrid)
					c14Try(t, fmt.Sprintf("version %d: %d pairs in order %d behind another subtable", ver, n, mode), base, ver, []ref.KernSub{{Coverage: cov, Pairs: mk(2, 0)}, {Coverage: cov, Pairs: ps}}, nil, kernGrid)
				}
			})
		}
	}
	e.Case("none", func(t *core.T) {
		s, err := font.ParseSFNT(ref.BuildSFNT("\x00\x01\x00\x00", base), 0)
		if err != nil {
			t.Fail("rejected", "%v", err)
			return
		}
		for _, l := range kernGrid {
			for _, r := range kernGrid {
				if v := s.Kerning(l, r); v != 0 {
					t.Fail("value", "font without kern table: %d", v)
				}
				t.Trans(1)
			}
		}
	})
	e.Case("real/DejaVuSerif", func(t *core.T) {
		b := resource("resources/DejaVuSerif.ttf")
		_, tabs, err := ref.ReadDir(b)
		if err != nil {
			t.Fail("harness", "%v", err)
			return
		}
		ks, err := ref.ReadKern(tabs["kern"])
		if err != nil {
			t.Fail("harness", "%v", err)
			return
		}
		s, err := font.ParseSFNT(b, 0)
		if err != nil {
			t.Fail("rejected", "%v", err)
			return
		}
		n := uint16(500)
		for l := uint16(0); l < n; l++ {
			for r := uint16(0); r < n; r++ {
				if got, want := s.Kerning(l, r), ref.KernValue(ks, l, r); got != want {
					t.Fail("value", "pair (%d,%d): %d instead of %d", l, r, got, want)
					return
				}
			}
		}
		for _, k := range ks {
			for key := range k.Pairs {
				l, r := uint16(key>>16), uint16(key)
				if got, want := s.Kerning(l, r), ref.KernValue(ks, l, r); got != want {
					t.Fail("value", "pair (%d,%d): %d instead of %d", l, r, got, want)
					return
				}
			}
			t.Trans(len(k.Pairs))
		}
		t.Trans(int(n) * int(n))
		t.Trace()
	})
}
