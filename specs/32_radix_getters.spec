package radix

// generated by tools/getters.py
def absent(s *trieS, K seq) := !stored(K) && !K_ends(s, K) && M[cat(K, unit(s.delimiter))] == 0
def vof(K seq) := (hasdata(M[K]) ? M[K].data : nil)

fn cvString(any) seq

func (*trieS).GetString(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:seq == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:seq == zero($r:seq)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvString(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustString(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:seq == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:seq == zero($r:seq)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvString(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvStringSlice(any) seqs
extern func evendeep::(*Cvt).StringSlice(c, v) (r)
  ensures r == cvStringSlice(v)

func (*trieS).GetStringSlice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvStringSlice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustStringSlice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvStringSlice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvStringMap(any) gomap[string]string
extern func evendeep::(*Cvt).StringMap(c, v) (r)
  ensures r == cvStringMap(v)

func (*trieS).GetStringMap(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]string == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]string == zero($r:gomap[string]string)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvStringMap(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustStringMap(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]string == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]string == zero($r:gomap[string]string)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvStringMap(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvBool(any) bool
extern func evendeep::(*Cvt).Bool(c, v) (r)
  ensures r == cvBool(v)

func (*trieS).GetBool(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:bool == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:bool == zero($r:bool)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvBool(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustBool(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:bool == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:bool == zero($r:bool)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvBool(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvBoolSlice(any) []bool
extern func evendeep::(*Cvt).BoolSlice(c, v) (r)
  ensures r == cvBoolSlice(v)

func (*trieS).GetBoolSlice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvBoolSlice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustBoolSlice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvBoolSlice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvBoolMap(any) gomap[string]bool
extern func evendeep::(*Cvt).BoolMap(c, v) (r)
  ensures r == cvBoolMap(v)

func (*trieS).GetBoolMap(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]bool == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]bool == zero($r:gomap[string]bool)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvBoolMap(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustBoolMap(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]bool == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]bool == zero($r:gomap[string]bool)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvBoolMap(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvDuration(any) time.Duration
extern func evendeep::(*Cvt).Duration(c, v) (r)
  ensures r == cvDuration(v)

func (*trieS).GetDuration(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:time.Duration == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:time.Duration == zero($r:time.Duration)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvDuration(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustDuration(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:time.Duration == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:time.Duration == zero($r:time.Duration)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvDuration(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvDurationSlice(any) []time.Duration
extern func evendeep::(*Cvt).DurationSlice(c, v) (r)
  ensures r == cvDurationSlice(v)

func (*trieS).GetDurationSlice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvDurationSlice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustDurationSlice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvDurationSlice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvDurationMap(any) gomap[string]time.Duration
extern func evendeep::(*Cvt).DurationMap(c, v) (r)
  ensures r == cvDurationMap(v)

func (*trieS).GetDurationMap(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]time.Duration == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]time.Duration == zero($r:gomap[string]time.Duration)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvDurationMap(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustDurationMap(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]time.Duration == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]time.Duration == zero($r:gomap[string]time.Duration)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvDurationMap(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvTime(any) time.Time
extern func evendeep::(*Cvt).Time(c, v) (r)
  ensures r == cvTime(v)

func (*trieS).GetTime(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:time.Time == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:time.Time == zero($r:time.Time)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvTime(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustTime(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:time.Time == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:time.Time == zero($r:time.Time)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvTime(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvTimeSlice(any) []time.Time
extern func evendeep::(*Cvt).TimeSlice(c, v) (r)
  ensures r == cvTimeSlice(v)

func (*trieS).GetTimeSlice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvTimeSlice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustTimeSlice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvTimeSlice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvTimeMap(any) gomap[string]time.Time
extern func evendeep::(*Cvt).TimeMap(c, v) (r)
  ensures r == cvTimeMap(v)

func (*trieS).GetTimeMap(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]time.Time == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]time.Time == zero($r:gomap[string]time.Time)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvTimeMap(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustTimeMap(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]time.Time == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]time.Time == zero($r:gomap[string]time.Time)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvTimeMap(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvInt(any) int
extern func evendeep::(*Cvt).Int(c, v) (r)
  ensures r == cvInt(v)

func (*trieS).GetInt(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int == zero($r:int)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustInt(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int == zero($r:int)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvIntSlice(any) []int
extern func evendeep::(*Cvt).IntSlice(c, v) (r)
  ensures r == cvIntSlice(v)

func (*trieS).GetIntSlice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvIntSlice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustIntSlice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvIntSlice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvIntMap(any) gomap[string]int
extern func evendeep::(*Cvt).IntMap(c, v) (r)
  ensures r == cvIntMap(v)

func (*trieS).GetIntMap(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int == zero($r:gomap[string]int)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvIntMap(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustIntMap(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int == zero($r:gomap[string]int)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvIntMap(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvUint(any) int
extern func evendeep::(*Cvt).Uint(c, v) (r)
  ensures r == cvUint(v)

func (*trieS).GetUint(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint == zero($r:uint)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUint(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint == zero($r:uint)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvUintSlice(any) []uint
extern func evendeep::(*Cvt).UintSlice(c, v) (r)
  ensures r == cvUintSlice(v)

func (*trieS).GetUintSlice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUintSlice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustUintSlice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUintSlice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvUintMap(any) gomap[string]uint
extern func evendeep::(*Cvt).UintMap(c, v) (r)
  ensures r == cvUintMap(v)

func (*trieS).GetUintMap(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint == zero($r:gomap[string]uint)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUintMap(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUintMap(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint == zero($r:gomap[string]uint)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUintMap(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

func (*trieS).GetInt8(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int8 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int8 == zero($r:int8)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvInt(vof(dec(fk(s, path)))), "int8") && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustInt8(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int8 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int8 == zero($r:int8)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvInt(vof(dec(fk(s, path)))), "int8")
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvInt8Slice(any) []int8
extern func evendeep::(*Cvt).Int8Slice(c, v) (r)
  ensures r == cvInt8Slice(v)

func (*trieS).GetInt8Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt8Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustInt8Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt8Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvInt8Map(any) gomap[string]int8
extern func evendeep::(*Cvt).Int8Map(c, v) (r)
  ensures r == cvInt8Map(v)

func (*trieS).GetInt8Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int8 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int8 == zero($r:gomap[string]int8)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt8Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustInt8Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int8 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int8 == zero($r:gomap[string]int8)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt8Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

func (*trieS).GetUint8(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint8 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint8 == zero($r:uint8)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvUint(vof(dec(fk(s, path)))), "uint8") && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUint8(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint8 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint8 == zero($r:uint8)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvUint(vof(dec(fk(s, path)))), "uint8")
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvUint8Slice(any) []uint8
extern func evendeep::(*Cvt).Uint8Slice(c, v) (r)
  ensures r == cvUint8Slice(v)

func (*trieS).GetUint8Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint8Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustUint8Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint8Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvUint8Map(any) gomap[string]uint8
extern func evendeep::(*Cvt).Uint8Map(c, v) (r)
  ensures r == cvUint8Map(v)

func (*trieS).GetUint8Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint8 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint8 == zero($r:gomap[string]uint8)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint8Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUint8Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint8 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint8 == zero($r:gomap[string]uint8)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint8Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

func (*trieS).GetInt16(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int16 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int16 == zero($r:int16)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvInt(vof(dec(fk(s, path)))), "int16") && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustInt16(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int16 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int16 == zero($r:int16)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvInt(vof(dec(fk(s, path)))), "int16")
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvInt16Slice(any) []int16
extern func evendeep::(*Cvt).Int16Slice(c, v) (r)
  ensures r == cvInt16Slice(v)

func (*trieS).GetInt16Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt16Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustInt16Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt16Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvInt16Map(any) gomap[string]int16
extern func evendeep::(*Cvt).Int16Map(c, v) (r)
  ensures r == cvInt16Map(v)

func (*trieS).GetInt16Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int16 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int16 == zero($r:gomap[string]int16)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt16Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustInt16Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int16 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int16 == zero($r:gomap[string]int16)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt16Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

func (*trieS).GetUint16(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint16 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint16 == zero($r:uint16)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvUint(vof(dec(fk(s, path)))), "uint16") && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUint16(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint16 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint16 == zero($r:uint16)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvUint(vof(dec(fk(s, path)))), "uint16")
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvUint16Slice(any) []uint16
extern func evendeep::(*Cvt).Uint16Slice(c, v) (r)
  ensures r == cvUint16Slice(v)

func (*trieS).GetUint16Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint16Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustUint16Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint16Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvUint16Map(any) gomap[string]uint16
extern func evendeep::(*Cvt).Uint16Map(c, v) (r)
  ensures r == cvUint16Map(v)

func (*trieS).GetUint16Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint16 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint16 == zero($r:gomap[string]uint16)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint16Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUint16Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint16 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint16 == zero($r:gomap[string]uint16)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint16Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

func (*trieS).GetInt32(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int32 == zero($r:int32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvInt(vof(dec(fk(s, path)))), "int32") && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustInt32(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int32 == zero($r:int32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvInt(vof(dec(fk(s, path)))), "int32")
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvInt32Slice(any) []int32
extern func evendeep::(*Cvt).Int32Slice(c, v) (r)
  ensures r == cvInt32Slice(v)

func (*trieS).GetInt32Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt32Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustInt32Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt32Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvInt32Map(any) gomap[string]int32
extern func evendeep::(*Cvt).Int32Map(c, v) (r)
  ensures r == cvInt32Map(v)

func (*trieS).GetInt32Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int32 == zero($r:gomap[string]int32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt32Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustInt32Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int32 == zero($r:gomap[string]int32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt32Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

func (*trieS).GetUint32(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint32 == zero($r:uint32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvUint(vof(dec(fk(s, path)))), "uint32") && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUint32(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint32 == zero($r:uint32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == wrap(cvUint(vof(dec(fk(s, path)))), "uint32")
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvUint32Slice(any) []uint32
extern func evendeep::(*Cvt).Uint32Slice(c, v) (r)
  ensures r == cvUint32Slice(v)

func (*trieS).GetUint32Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint32Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustUint32Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint32Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvUint32Map(any) gomap[string]uint32
extern func evendeep::(*Cvt).Uint32Map(c, v) (r)
  ensures r == cvUint32Map(v)

func (*trieS).GetUint32Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint32 == zero($r:gomap[string]uint32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint32Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUint32Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint32 == zero($r:gomap[string]uint32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint32Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

func (*trieS).GetInt64(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int64 == zero($r:int64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustInt64(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:int64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:int64 == zero($r:int64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvInt64Slice(any) []int64
extern func evendeep::(*Cvt).Int64Slice(c, v) (r)
  ensures r == cvInt64Slice(v)

func (*trieS).GetInt64Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt64Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustInt64Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt64Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvInt64Map(any) gomap[string]int64
extern func evendeep::(*Cvt).Int64Map(c, v) (r)
  ensures r == cvInt64Map(v)

func (*trieS).GetInt64Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int64 == zero($r:gomap[string]int64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt64Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustInt64Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]int64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]int64 == zero($r:gomap[string]int64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvInt64Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

func (*trieS).GetUint64(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint64 == zero($r:uint64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUint64(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint64 == zero($r:uint64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvUint64Slice(any) []uint64
extern func evendeep::(*Cvt).Uint64Slice(c, v) (r)
  ensures r == cvUint64Slice(v)

func (*trieS).GetUint64Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint64Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustUint64Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint64Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvUint64Map(any) gomap[string]uint64
extern func evendeep::(*Cvt).Uint64Map(c, v) (r)
  ensures r == cvUint64Map(v)

func (*trieS).GetUint64Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint64 == zero($r:gomap[string]uint64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint64Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustUint64Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]uint64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]uint64 == zero($r:gomap[string]uint64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvUint64Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvFloat64(any) float64
extern func evendeep::(*Cvt).Float64(c, v) (r)
  ensures r == cvFloat64(v)

func (*trieS).GetFloat64(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:float64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:float64 == zero($r:float64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat64(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustFloat64(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:float64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:float64 == zero($r:float64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat64(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvFloat64Slice(any) []float64
extern func evendeep::(*Cvt).Float64Slice(c, v) (r)
  ensures r == cvFloat64Slice(v)

func (*trieS).GetFloat64Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat64Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustFloat64Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat64Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvFloat64Map(any) gomap[string]float64
extern func evendeep::(*Cvt).Float64Map(c, v) (r)
  ensures r == cvFloat64Map(v)

func (*trieS).GetFloat64Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]float64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]float64 == zero($r:gomap[string]float64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat64Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustFloat64Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]float64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]float64 == zero($r:gomap[string]float64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat64Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvFloat32(any) float32
extern func evendeep::(*Cvt).Float32(c, v) (r)
  ensures r == cvFloat32(v)

func (*trieS).GetFloat32(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:float32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:float32 == zero($r:float32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat32(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustFloat32(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:float32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:float32 == zero($r:float32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat32(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvFloat32Slice(any) []float32
extern func evendeep::(*Cvt).Float32Slice(c, v) (r)
  ensures r == cvFloat32Slice(v)

func (*trieS).GetFloat32Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat32Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustFloat32Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat32Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvFloat32Map(any) gomap[string]float32
extern func evendeep::(*Cvt).Float32Map(c, v) (r)
  ensures r == cvFloat32Map(v)

func (*trieS).GetFloat32Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]float32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]float32 == zero($r:gomap[string]float32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat32Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustFloat32Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]float32 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]float32 == zero($r:gomap[string]float32)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvFloat32Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvComplex128(any) complex128
extern func evendeep::(*Cvt).Complex128(c, v) (r)
  ensures r == cvComplex128(v)

func (*trieS).GetComplex128(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:complex128 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:complex128 == zero($r:complex128)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex128(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustComplex128(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:complex128 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:complex128 == zero($r:complex128)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex128(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvComplex128Slice(any) []complex128
extern func evendeep::(*Cvt).Complex128Slice(c, v) (r)
  ensures r == cvComplex128Slice(v)

func (*trieS).GetComplex128Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex128Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustComplex128Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex128Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvComplex128Map(any) gomap[string]complex128
extern func evendeep::(*Cvt).Complex128Map(c, v) (r)
  ensures r == cvComplex128Map(v)

func (*trieS).GetComplex128Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]complex128 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]complex128 == zero($r:gomap[string]complex128)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex128Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustComplex128Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]complex128 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]complex128 == zero($r:gomap[string]complex128)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex128Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvComplex64(any) complex64
extern func evendeep::(*Cvt).Complex64(c, v) (r)
  ensures r == cvComplex64(v)

func (*trieS).GetComplex64(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:complex64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:complex64 == zero($r:complex64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex64(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustComplex64(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:complex64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:complex64 == zero($r:complex64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex64(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

fn cvComplex64Slice(any) []complex64
extern func evendeep::(*Cvt).Complex64Slice(c, v) (r)
  ensures r == cvComplex64Slice(v)

func (*trieS).GetComplex64Slice(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex64Slice(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv && err == notfound()

func (*trieS).MustComplex64Slice(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex64Slice(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == dv

fn cvComplex64Map(any) gomap[string]complex64
extern func evendeep::(*Cvt).Complex64Map(c, v) (r)
  ensures r == cvComplex64Map(v)

func (*trieS).GetComplex64Map(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]complex64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]complex64 == zero($r:gomap[string]complex64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex64Map(vof(dec(fk(s, path)))) && err == nil
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret)) && err == notfound()

func (*trieS).MustComplex64Map(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:gomap[string]complex64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:gomap[string]complex64 == zero($r:gomap[string]complex64)
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures stored: stored(dec(fk(s, path))) ==> ret == cvComplex64Map(vof(dec(fk(s, path))))
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))

func (*trieS).GetKibiBytes(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint64 == 0
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : 0) && err == notfound()
  ensures stored: stored(dec(fk(s, path))) ==> err == nil

func (*trieS).MustKibiBytes(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint64 == 0
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : 0)

func (*trieS).GetKiloBytes(s, path, dv) (ret, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint64 == 0
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : 0) && err == notfound()
  ensures stored: stored(dec(fk(s, path))) ==> err == nil

func (*trieS).MustKiloBytes(s, path, dv) (ret)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  inv $i:int > 0 ==> $r:uint64 == dv[$i:int - 1]
  inv $i:int == 0 ==> $r:uint64 == 0
  inv 0 <= $i:int && $i:int <= len(dv)
  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : 0)

