package store_test

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/hedzr/store/internal/times"
	"github.com/hedzr/store/radix"
)

var vUnits = []struct {
	name string
	ns   int64
}{{"ns", 1}, {"us", 1e3}, {"µs", 1e3}, {"μs", 1e3}, {"ms", 1e6}, {"s", 1e9}, {"m", 60e9}, {"h", 3600e9}, {"d", 86400e9}}

// vParseOracle: exact for texts without fraction; ok=false: must be rejected.
// unsure: the text has a fraction, only acceptance is decided.
func vParseOracle(s string) (val *big.Int, ok, frac bool) {
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg, s = s[0] == '-', s[1:]
	}
	if s == "0" {
		return new(big.Int), true, false
	}
	if s == "" {
		return nil, false, false
	}
	sum := new(big.Int)
	for s != "" {
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		num := s[:i]
		s = s[i:]
		fd := ""
		if s != "" && s[0] == '.' {
			s = s[1:]
			j := 0
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			fd, s = s[:j], s[j:]
		}
		if num == "" && fd == "" {
			return nil, false, false
		}
		if strings.Trim(fd, "0") != "" {
			frac = true
		}
		k := 0
		for k < len(s) && s[k] != '.' && (s[k] < '0' || s[k] > '9') {
			k++
		}
		var unit int64
		for _, u := range vUnits {
			if u.name == s[:k] {
				unit = u.ns
			}
		}
		if unit == 0 {
			return nil, false, false
		}
		s = s[k:]
		n := new(big.Int)
		if num != "" {
			n.SetString(num, 10)
		}
		sum.Add(sum, n.Mul(n, big.NewInt(unit)))
	}
	if neg {
		sum.Neg(sum)
	}
	if !sum.IsInt64() {
		return nil, false, frac
	}
	return sum, true, frac
}

func TestVerif_R12(t *testing.T) {
	r := vStart(t, "R12", "durations: every unit boundary and its neighbours, powers of two and ten, extremes, random; texts: random over the duration alphabet, up to 24 characters")
	var ds []time.Duration
	add := func(v int64) {
		for _, k := range []int64{-1, 0, 1} {
			ds = append(ds, time.Duration(v+k), time.Duration(-(v + k)))
		}
	}
	for _, u := range vUnits {
		for _, m := range []int64{1, 2, 9, 10, 23, 24, 59, 60, 99, 100, 999, 1000, 106751} {
			if math.MaxInt64/u.ns > m {
				add(u.ns * m)
			}
		}
	}
	for i := 0; i < 63; i++ {
		add(1 << i)
	}
	for p := int64(1); p < math.MaxInt64/10; p *= 10 {
		add(p)
	}
	ds = append(ds, math.MaxInt64, math.MinInt64, math.MinInt64+1, math.MaxInt64-1)
	rnd := rand.New(rand.NewSource(vSeed()))
	for i := 0; i < vScale(100000, 3000000); i++ {
		v := rnd.Int63() >> uint(rnd.Intn(63))
		if rnd.Intn(2) == 0 {
			v = -v
		}
		if rnd.Intn(3) == 0 {
			u := vUnits[rnd.Intn(len(vUnits))].ns
			v = v / u * u
		}
		ds = append(ds, time.Duration(v))
	}
	for _, d := range ds {
		if r.over() {
			break
		}
		r.one(map[string]any{"duration_ns": int64(d)}, func() string {
			s := times.SmartDurationString(d)
			if len(s) == 0 || len(s) > 40 {
				return fmt.Sprintf("formatted as %q", s)
			}
			g, err := times.ParseDuration(s)
			if err != nil || g != d {
				return fmt.Sprintf("formatted as %q, parsed back as %d, %v", s, int64(g), err)
			}
			if m := times.MustParseDuration(s); m != d {
				return fmt.Sprintf("formatted as %q, MustParseDuration gives %d", s, int64(m))
			}
			_ = times.SmartDurationStringEx(d, true)
			v, ok, frac := vParseOracle(s)
			if !ok || !frac && v.Int64() != int64(d) {
				return fmt.Sprintf("formatted as %q, which is %v", s, v)
			}
			return ""
		})
	}
	atoms := []string{"0", "1", "9", "12", "7", "59", "9223372036854775807", "9223372036854775808", "106751", "106752", "2562047", "2562048", "99999999999999999999", ".", "-", "+", "ns", "us", "µs", "μs", "ms", "s", "m", "h", "d", "n", "u", "x", "H", " ", "00", "854775807", "1.5", ".5", "3."}
	one := func(s string) {
		r.one(map[string]any{"text": s}, func() string {
			g, err := times.ParseDuration(s)
			v, ok, frac := vParseOracle(s)
			if !ok {
				if err == nil && !(frac && v == nil && strings.ContainsAny(s, "0123456789")) {
					return fmt.Sprintf("%q is accepted as %d", s, int64(g))
				}
				if err == nil {
					return fmt.Sprintf("%q is accepted as %d although out of range or malformed", s, int64(g))
				}
				if g != 0 {
					return fmt.Sprintf("%q is rejected but yields %d", s, int64(g))
				}
				return ""
			}
			if frac {
				if w, e := time.ParseDuration(s); e == nil && (err != nil || w != g) {
					return fmt.Sprintf("%q is parsed as %d, %v, want %d", s, int64(g), err, int64(w))
				}
				return ""
			}
			if err != nil || int64(g) != v.Int64() {
				return fmt.Sprintf("%q is parsed as %d, %v, want %v", s, int64(g), err, v)
			}
			return ""
		})
	}
	// sums around the ends of the range
	for k := int64(-1100); k <= 1100; k++ {
		if k < -40 && k > -1020 || k > 40 && k < 1020 {
			continue
		}
		end := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(k))
		for _, u := range vUnits {
			q, m := new(big.Int).QuoRem(end, big.NewInt(u.ns), new(big.Int))
			for _, sign := range []string{"", "-", "+"} {
				one(fmt.Sprintf("%s%v%s%vns", sign, q, u.name, m))
				one(fmt.Sprintf("%s%vns%v%s", sign, m, q, u.name))
			}
		}
	}
	for _, a := range atoms {
		one(a)
		for _, b := range atoms {
			one(a + b)
			for _, c := range atoms {
				one(a + b + c)
			}
		}
	}
	for i := 0; i < vScale(100000, 3000000) && !r.over(); i++ {
		s := ""
		for n := rnd.Intn(8); n >= 0; n-- {
			s += atoms[rnd.Intn(len(atoms))]
		}
		one(s)
	}
}

func TestVerif_R13(t *testing.T) {
	r := vStart(t, "R13", "numbers of up to 20 digits and decimals with every unit letter and suffix; arbitrary texts of up to 12 characters (no panic)")
	tr := radix.NewTrie[any]()
	type conv interface {
		FromKibiBytes(sz string) uint64
		FromKiloBytes(sz string) uint64
	}
	cv, ok := any(tr).(conv)
	if !ok {
		// reach it through the getters
		cv = vViaGetter{tr}
	}
	rnd := rand.New(rand.NewSource(vSeed()))
	letters := "kmgtpe"
	nums := []string{"0", "1", "2", "7", "8", "9", "10", "15", "16", "99", "100", "999", "1023", "1024", "1000", "65535", "123456789"}
	check := func(num string, li int, upper bool, suffix string, pad string) {
		unit := ""
		pw := 0
		if li >= 0 {
			unit = letters[li : li+1]
			pw = li + 1
			if upper {
				unit = strings.ToUpper(unit)
			}
		}
		n, _ := new(big.Int).SetString(num, 10)
		for _, base := range []int64{1024, 1000} {
			sfx := suffix
			if base == 1000 && sfx == "iB" {
				continue
			}
			want := new(big.Int).Mul(n, new(big.Int).Exp(big.NewInt(base), big.NewInt(int64(pw)), nil))
			if !want.IsUint64() {
				continue
			}
			text := num + pad + unit + sfx
			r.one(map[string]any{"text": text, "base": base}, func() string {
				var got uint64
				if base == 1024 {
					got = cv.FromKibiBytes(text)
				} else {
					got = cv.FromKiloBytes(text)
				}
				if got != want.Uint64() {
					return fmt.Sprintf("%q (base %d) converts to %d, want %v", text, base, got, want)
				}
				tr.Set("size.x", text)
				if base == 1024 {
					got = tr.MustKibiBytes("size.x", 77)
				} else {
					got = tr.MustKiloBytes("size.x", 77)
				}
				if got != want.Uint64() {
					return fmt.Sprintf("stored %q (base %d) reads %d, want %v", text, base, got, want)
				}
				return ""
			})
		}
	}
	sfx := []string{"", "iB", "B"}
	for _, n := range nums {
		for li := -1; li < len(letters); li++ {
			for _, up := range []bool{false, true} {
				for _, s := range sfx {
					if li < 0 && s == "iB" {
						continue
					}
					check(n, li, up, s, "")
				}
			}
		}
	}
	for i := 0; i < vScale(60000, 1500000) && !r.over(); i++ {
		n := fmt.Sprint(rnd.Uint64() >> uint(rnd.Intn(64)))
		check(n, rnd.Intn(len(letters)+1)-1, rnd.Intn(2) == 0, sfx[rnd.Intn(2)*2], "")
		// decimals whose product is exact
		num := rnd.Intn(1000)
		li := rnd.Intn(len(letters))
		for _, base := range []float64{1024, 1000} {
			text := fmt.Sprintf("%d.5%c", num, letters[li])
			want := uint64((float64(num) + 0.5) * math.Pow(base, float64(li+1)))
			if (float64(num)+0.5)*math.Pow(base, float64(li+1)) > 1<<53 {
				continue
			}
			r.one(map[string]any{"text": text, "base": base}, func() string {
				got := cv.FromKibiBytes(text)
				if base == 1000 {
					got = cv.FromKiloBytes(text)
				}
				if got != want {
					return fmt.Sprintf("%q (base %v) converts to %d, want %d", text, base, got, want)
				}
				return ""
			})
		}
		al := []rune("0123456789.kKmMgGtTpPeEzZyYiB bxé-+_")
		var b []rune
		for k := rnd.Intn(12); k > 0; k-- {
			b = append(b, al[rnd.Intn(len(al))])
		}
		text := string(b)
		r.one(map[string]any{"text": text}, func() string {
			_, _ = cv.FromKibiBytes(text), cv.FromKiloBytes(text)
			return ""
		})
	}
}

type vViaGetter struct{ t radix.Trie[any] }

func (v vViaGetter) FromKibiBytes(sz string) uint64 {
	v.t.Set("viag", sz)
	return v.t.MustKibiBytes("viag")
}
func (v vViaGetter) FromKiloBytes(sz string) uint64 {
	v.t.Set("viag", sz)
	return v.t.MustKiloBytes("viag")
}
