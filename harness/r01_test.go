package store_test

import (
	"math/rand"
	"strings"
	"testing"
)

var vTargets = []string{"trie", "store", "trieby"}

func vRunHist(h vHist) (string, int) {
	t, m := vNew(h.Target, h.Delim, h.Prefix), vNewModel(h.Delim)
	qs := vQueries(h.Keys, h.Delim)
	n := 0
	for _, q := range qs { // an empty store
		n++
		if s := vRead(t, m, h.Prefix, q); s != "" {
			return "on an empty store: " + s, n
		}
	}
	for i, o := range h.Ops {
		if s := vApply(t, m, h.Prefix, o); s != "" {
			return s, n
		}
		if i%3 == 0 || i == len(h.Ops)-1 {
			s, c := vState(t, m, h.Prefix, qs)
			n += c
			if s != "" {
				return "after " + o.String() + ": " + s, n
			}
		}
	}
	return "", n
}

// small scope: every sequence of up to L operations over a set of nasty keys
func vSmall(r *vRun, kinds []string, keys []string, L int) {
	for _, target := range vTargets[:2] {
		var rec func(ops []vOp)
		rec = func(ops []vOp) {
			if r.over() {
				return
			}
			if len(ops) == L {
				r.hist(vHist{Target: target, Delim: ".", Keys: keys, Ops: append([]vOp{}, ops...)}, vRunHist)
				return
			}
			for i, k := range keys {
				for _, kind := range kinds {
					if len(ops) == 0 && kind != "set" {
						continue
					}
					rec(append(ops, vOp{Op: kind, Key: k, Arg: "1", Val: len(ops)*100 + i}))
				}
			}
		}
		rec(nil)
	}
}

func vRandom(r *vRun, cases int, kinds []string, run func(h vHist) (string, int)) {
	rnd := rand.New(rand.NewSource(vSeed()))
	for i := 0; i < cases && !r.over(); i++ {
		d := "."
		if i%5 == 4 {
			d = []string{"/", "-", "_"}[rnd.Intn(3)]
		}
		keys := vKeys(rnd, d, 2+rnd.Intn(7))
		if d == "-" {
			for j := range keys {
				keys[j] = strings.ReplaceAll(keys[j], "x-y", "xy")
			}
		}
		prefix := ""
		if i%4 == 3 {
			prefix = []string{"p", "a", "app" + d + "srv", "é" + d + "a"}[rnd.Intn(4)]
		}
		h := vHist{Target: vTargets[i%3], Delim: d, Prefix: prefix, Keys: keys}
		h.Ops = vRandOps(rnd, keys, vQueries(keys, d), 1+rnd.Intn(14), kinds)
		r.hist(h, run)
	}
}

var vNasty = []string{"a", "ab", "abc", "a.b", "a.bc", "a.b.c", "ab.c", "b", "éa", "éb"}

func TestVerif_R01(t *testing.T) {
	r := vStart(t, "R01", "histories of up to 14 writes over up to 8 keys (random), all histories of 3 writes over 10 keys")
	vRandom(r, vScale(5000, 100000), []string{"set", "set", "set", "insert", "setex", "setnode", "setempty", "update", "setdata"}, vRunHist)
	vSmall(r, []string{"set", "update"}, vNasty, 3)
}

func TestVerif_R02(t *testing.T) {
	r := vStart(t, "R02", "histories of up to 14 operations over up to 8 keys and their neighbours (random), all histories of 3 writes or removals over 10 keys")
	vRandom(r, vScale(5000, 100000), []string{"set", "set", "set", "setnode", "setempty", "remove"}, vRunHist)
	vSmall(r, []string{"set", "remove"}, vNasty, 3)
}

func TestVerif_R03(t *testing.T) {
	r := vStart(t, "R03", "histories of up to 14 operations over up to 8 keys (random), all histories of 4 writes or removals over 6 keys")
	vRandom(r, vScale(5000, 100000), []string{"set", "set", "remove", "removeex", "setnode"}, vRunHist)
	vSmall(r, []string{"set", "remove"}, []string{"a", "ab", "a.b", "a.b.c", "a.bc", "é"}, vScale(3, 4))
	vSmall(r, []string{"set", "removeex"}, vNasty, 3)
}

func TestVerif_R04(t *testing.T) {
	r := vStart(t, "R04", "histories of up to 14 operations over up to 8 keys (random), all histories of 3 operations over 6 keys")
	vRandom(r, vScale(5000, 100000), []string{"set", "set", "setnode", "comment", "tag", "modify", "toggle", "remove", "update", "setdata"}, vRunHist)
	vSmall(r, []string{"set", "comment", "tag"}, []string{"a", "ab", "a.b", "a.b.c", "a.bc", "é"}, 3)
}
