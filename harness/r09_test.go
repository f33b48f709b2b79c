package store_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/hedzr/evendeep"
	"github.com/hedzr/store"
)

type vGetCase struct {
	Target  string `json:"target"`
	Getter  string `json:"getter"`
	Value   string `json:"stored"`
	Default string `json:"default"`
	Path    string `json:"path"`
}

var vGetVals = []any{
	0, 1, -7, 300, int8(-3), int16(777), int32(70000), int64(1) << 40, uint8(200), uint16(60000), uint32(4000000000), uint64(1) << 60, uint(9),
	1.5, float32(2.25), -3.75, complex(1, 2), complex64(3), true, false, "", "12", "-5", "3.5", "true", "on", "text", "1h2m", "3d4h", "2021-02-03 04:05:06",
	[]int{1, 2, 3}, []string{"1", "2"}, []any{1, "2", 3.0}, []float64{1.5, 2}, []bool{true, false}, []uint8{1, 2}, "1,2,3", []time.Duration{time.Second},
	map[string]any{"a": 1, "b": "2"}, map[string]int{"x": 5}, map[string]string{"k": "1"}, map[string]bool{"t": true},
	-128, 127, -129, 128, 255, 256, -32768, 32767, 65535, 65536, -2147483648, 2147483647, int64(-9223372036854775808), int64(9223372036854775807), uint64(18446744073709551615), uint32(4294967295),
	"-32768", "255", "65536", "0x10", " 7", "abc", float32(0.1), 1e6, -0.0, "1e3",
	[]int{}, []int{-1, 128, 40000, -70000}, []int64{9223372036854775807}, []uint64{18446744073709551615}, []string{}, []string{"x", "", "z,w"}, []float32{0.5}, []any{}, map[string]any{}, map[string]string{},
	-time.Minute, 36 * time.Hour, time.Second, time.Duration(0), time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), nil,
}

// vDefault makes the value number i of type t, never the zero value.
func vDefault(t reflect.Type, i int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprintf("%d", 41+i))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(41 + i))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(41 + i))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(41 + i))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(41+i), 1))
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(reflect.ValueOf("dflt"), vDefault(t.Elem(), i))
	case reflect.Struct:
		if t == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Date(1999, 1, 1+i, 0, 0, 0, 0, time.UTC)))
		}
	}
	return v
}

// vConvert is the conversion a getter stands for.
func vConvert(name string, v any, rt reflect.Type) (out reflect.Value, ok bool) {
	cvt := &evendeep.Cvt{}
	switch name {
	case "Int", "Int8", "Int16", "Int32", "Int64":
		return reflect.ValueOf(cvt.Int(v)).Convert(rt), true
	case "Uint", "Uint8", "Uint16", "Uint32", "Uint64":
		return reflect.ValueOf(cvt.Uint(v)).Convert(rt), true
	}
	m := reflect.ValueOf(cvt).MethodByName(name)
	if !m.IsValid() || m.Type().NumIn() != 1 || m.Type().NumOut() < 1 {
		return
	}
	o := m.Call([]reflect.Value{vAnyValue(v)})[0]
	if !o.Type().ConvertibleTo(rt) {
		return
	}
	return o.Convert(rt), true
}

func vAnyValue(v any) reflect.Value {
	rv := reflect.New(reflect.TypeOf((*any)(nil)).Elem()).Elem()
	if v != nil {
		rv.Set(reflect.ValueOf(v))
	}
	return rv
}

func vTryConvert(name string, v any, rt reflect.Type) (out reflect.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false // the conversion itself is not defined for this value
		}
	}()
	return vConvert(name, v, rt)
}

// vSensible: the stored value is of a sort the getter is meant for (the
// conversions of the dependency do not all end for other sorts).
func vSensible(val any, rt reflect.Type) bool {
	k := reflect.Invalid
	if val != nil {
		k = reflect.TypeOf(val).Kind()
	}
	switch rt.Kind() {
	case reflect.Slice:
		return k == reflect.Slice
	case reflect.Map:
		return k == reflect.Map
	}
	return k != reflect.Slice && k != reflect.Map && k != reflect.Invalid
}

func vSame(a, b reflect.Value) bool {
	return fmt.Sprintf("%#v", a.Interface()) == fmt.Sprintf("%#v", b.Interface()) || reflect.DeepEqual(a.Interface(), b.Interface())
}

func TestVerif_R09(t *testing.T) {
	r := vStart(t, "R09", "every Get/Must pair of Trie and Store found by reflection, 80 stored values, stored and absent paths, up to 3 defaults")
	rnd := rand.New(rand.NewSource(vSeed()))
	seen := 0
	for _, target := range []string{"trie", "store"} {
		for vi, val := range vGetVals {
			tg := vNew(target, ".", "")
			pre := ""
			if vi%3 == 1 {
				pre = "app.srv"
				tg.SetPrefix(pre)
			}
			tg.Set("sec.key", val)
			tg.Set("sec.ke", 99)
			tg.Set("other", "zz")
			rv := reflect.ValueOf(tg)
			for i := 0; i < rv.NumMethod(); i++ {
				n := rv.Type().Method(i).Name
				base, isMust := strings.CutPrefix(n, "Must")
				if !isMust {
					continue
				}
				must, get := rv.Method(i), rv.MethodByName("Get"+base)
				mt := must.Type()
				if !get.IsValid() || !mt.IsVariadic() || mt.NumIn() != 2 || mt.NumOut() != 1 || get.Type().NumOut() != 2 || base == "R" || base == "M" {
					continue
				}
				rt, et := mt.Out(0), mt.In(1).Elem()
				kb := base == "KibiBytes" || base == "KiloBytes"
				seen++
				for _, path := range []string{"sec.key", "sec.absent", "sec.ke.y", "nothing", "sec.k", "sec.key.x"} {
					nd := rnd.Intn(4)
					args := []reflect.Value{reflect.ValueOf(path)}
					for j := 0; j < nd; j++ {
						args = append(args, vDefault(et, j))
					}
					c := vGetCase{Target: target, Getter: base, Value: fmt.Sprintf("%#v", val), Path: path, Default: fmt.Sprint(nd)}
					r.one(c, func() string {
						stored := path == "sec.key"
						var want reflect.Value
						if stored && !vSensible(val, rt) {
							return ""
						}
						if stored {
							if kb {
								if s, ok := val.(string); !ok || s == "" {
									return ""
								}
								w := must.Call(args[:1])[0]
								if g := must.Call(args)[0]; !vSame(w, g) {
									return fmt.Sprintf("Must%s(%q) depends on the default for a stored key: %v / %v", base, path, w, g)
								}
								want = w
							} else {
								var ok bool
								if want, ok = vTryConvert(base, val, rt); !ok {
									return ""
								}
							}
						} else {
							want = reflect.Zero(rt)
							if rt.Kind() == reflect.Slice && et.Kind() != reflect.Slice && rt.Elem() == et {
								if nd > 0 {
									want = reflect.MakeSlice(rt, 0, nd)
									want = reflect.Append(want, args[1:]...)
								}
							} else if nd > 0 {
								want = args[nd]
							}
						}
						o := get.Call(args)
						err, _ := o[1].Interface().(error)
						if !vSame(o[0], want) && !(rt.Kind() == reflect.Slice && o[0].Len() == 0 && want.Len() == 0) {
							return fmt.Sprintf("Get%s(%q, %d defaults) = %#v, want %#v", base, path, nd, o[0].Interface(), want.Interface())
						}
						if stored && err != nil {
							return fmt.Sprintf("Get%s(%q) reports %v for a stored key", base, path, err)
						}
						if !stored && (err == nil || !store.ErrorIsNotFound(err)) {
							return fmt.Sprintf("Get%s(%q) reports %v for an absent path, want not-found", base, path, err)
						}
						mo := must.Call(args)[0]
						if !vSame(mo, o[0]) && !(rt.Kind() == reflect.Slice && mo.Len() == 0 && o[0].Len() == 0) {
							return fmt.Sprintf("Must%s(%q, %d defaults) = %#v but Get%s = %#v", base, path, nd, mo.Interface(), base, o[0].Interface())
						}
						return ""
					})
				}
			}
		}
	}
	if seen < 80*len(vGetVals) {
		r.fail(seen/len(vGetVals), "only %d getter pairs found by reflection", seen/len(vGetVals))
	}
}
