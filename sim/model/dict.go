package model

import (
	"hash/fnv"
	"strings"
	"sync"

	"verif.local/gitsim/simhook"
)

// Word draws a string constant of the code under test: a decoder that treats one
// value specially names it somewhere. "" without a vocabulary.
func (g *Gen) Word() string {
	if len(simhook.Words) == 0 {
		return ""
	}
	f := simhook.Words[g.Intn(len(simhook.Words))]
	w := f[g.Intn(len(f))]
	switch g.Weighted(6, 1, 1, 1) {
	case 1:
		w = w[:g.Intn(len(w)+1)]
	case 2:
		w += w
	case 3:
		w = strings.TrimSpace(w)
	}
	return w
}

// Int draws a number near an integer constant of the code under test.
func (g *Gen) Int() (int64, bool) {
	if len(simhook.Ints) == 0 {
		return 0, false
	}
	f := simhook.Ints[g.Intn(len(simhook.Ints))]
	return f[g.Intn(len(f))] + int64(g.Range(-1, 1)), true
}

// Near is Int, if it is in [0,limit].
func (g *Gen) Near(limit int) (int, bool) {
	n, ok := g.Int()
	return int(n), ok && n >= 0 && n <= int64(limit)
}

// Count is how often something is repeated: n, or now and then a number near a
// constant of the code under test.
func (g *Gen) Count(n int) int {
	if g.Chance(1, 20) {
		limit := 40
		if g.Big {
			limit = 300
		}
		if k, ok := g.Near(limit); ok {
			return k
		}
	}
	return n
}

// headers start the commit lines that have a field of their own.
var headers = []string{"tree ", "parent ", "author ", "committer ", "encoding ", "mergetag object "}

// otherLine: a commit keeps the line as it is, among the others.
func otherLine(l string, afterTag bool) bool {
	if l == "" || strings.ContainsAny(l, "\n\x00") || l == "gpgsig -----BEGIN PGP SIGNATURE-----" || (afterTag && l[0] == ' ') {
		return false
	}
	for _, h := range headers {
		if strings.HasPrefix(l, h) {
			return false
		}
	}
	return true
}

// Vast is a length near a constant of the code under test that is beyond what Size
// draws, and not beyond what one run can bear.
func (g *Gen) Vast() (int, bool) {
	var c []int64
	for _, f := range simhook.Ints {
		for _, n := range f {
			if n > 1200000 && n <= 70<<20 {
				c = append(c, n)
			}
		}
	}
	if len(c) == 0 || !g.Chance(1, 100) {
		return 0, false
	}
	return int(c[g.Intn(len(c))]) + []int{-1, 0, 1, 2, -60, 60, 5000, 100000}[g.Intn(8)], true
}

// names are the constants of the code under test that could name something.
var names = sync.OnceValue(func() []string {
	var out []string
	have := map[string]bool{}
	for _, f := range simhook.Words {
		for _, w := range f {
			if w != "" && len(w) <= 24 && !strings.ContainsAny(w, " \n\x00%") && !have[w] {
				have[w] = true
				out = append(out, w)
			}
		}
	}
	return out
})

// Names are a few of these, others for another value.
func Names(v *Val, n int) []string {
	all := names()
	if len(all) == 0 {
		return nil
	}
	h := fnv.New64a()
	var add func(v *Val, depth int)
	add = func(v *Val, depth int) {
		h.Write([]byte(v.S[:min(len(v.S), 40)]))
		h.Write(v.L[:])
		for i, x := range v.Vals {
			if i < 4 && depth < 2 {
				add(x, depth+1)
			}
		}
	}
	add(v, 0)
	x := h.Sum64()
	var out []string
	for range n {
		out = append(out, all[x%uint64(len(all))])
		x = x*6364136223846793005 + 1442695040888963407
		x ^= x >> 29
	}
	return out
}
