package times

// decimal digits: dz(0) is empty, digs(0) is "0"
fn dz(int) seq
axiom dz: forall v int :: {dz(v)} dz(v) == (v <= 0 ? emp : cat(dz(v / 10), unit(48 + v % 10)))
fn digs(int) seq
axiom digs: forall v int :: {digs(v)} digs(v) == (v <= 0 ? unit(48) : dz(v))
lemma dz1: forall v int :: {dz(v)} v < 10 ==> len(dz(v)) <= 1
lemma dz2: forall v int :: {dz(v)} v < 100 ==> len(dz(v)) <= 2
lemma dz3: forall v int :: {dz(v)} v < 1000 ==> len(dz(v)) <= 3
lemma dz4: forall v int :: {dz(v)} v < 10000 ==> len(dz(v)) <= 4
lemma dz5: forall v int :: {dz(v)} v < 100000 ==> len(dz(v)) <= 5
lemma dz6: forall v int :: {dz(v)} v < 1000000 ==> len(dz(v)) <= 6
lemma dz7: forall v int :: {dz(v)} v < 10000000 ==> len(dz(v)) <= 7
lemma dig1: forall v int :: {digs(v)} len(digs(v)) >= 1

func fmtInt(buf, v) (w)
  option invsecs 4
  writes buf
  requires len(buf) >= len(digs(v))
  inv $v:int >= 0 && len(dz(v)) - len(dz($v:int)) == len(buf) - $w:int && pfx(dz($v:int), dz(v))
  inv forall i int :: {buf[i]} $w:int <= i && i < len(buf) ==> buf[i] == dz(v)[i - len(buf) + len(dz(v))]
  inv forall i int :: {buf[i]} 0 <= i && i < $w:int ==> buf[i] == old(buf)[i]
  ensures w == len(buf) - len(digs(v))
  ensures buf[w:] == digs(v)
  ensures buf[:w] == old(buf)[:w]

// v without its last i digits, and the text of these digits without trailing zeros
fn dv(int, int) int
axiom dv: forall v int, i int :: {dv(v, i)} dv(v, i) == (i <= 0 ? v : dv(v, i - 1) / 10)
fn ft(int, int) seq
axiom ft: forall v int, i int :: {ft(v, i)} ft(v, i) == (i <= 0 ? emp : (ft(v, i - 1) == emp && dv(v, i - 1) % 10 == 0 ? emp : cat(unit(48 + dv(v, i - 1) % 10), ft(v, i - 1))))

func fmtFrac(buf, v, prec) (nw, nv)
  option invsecs 4
  writes buf
  requires prec >= 0 && len(buf) > prec
  inv 0 <= $i:int && $i:int <= prec && $v:int == dv(v, $i:int)
  inv len(buf) - $w:int == len(ft(v, $i:int)) && len(buf) - $w:int <= $i:int
  inv len(buf) - $w:int == len(ft(v, $i:int)) && ($b:bool <==> ft(v, $i:int) != emp)
  inv forall i int :: {buf[i]} $w:int <= i && i < len(buf) && len(buf) - $w:int == len(ft(v, $i:int)) ==> buf[i] == ft(v, $i:int)[i - $w:int]
  inv forall i int :: {buf[i]} 0 <= i && i < $w:int ==> buf[i] == old(buf)[i]
  ensures nv == dv(v, prec)
  ensures nw == len(buf) - (ft(v, prec) == emp ? 0 : 1 + len(ft(v, prec))) && nw >= len(buf) - prec - 1
  ensures buf[nw:] == (ft(v, prec) == emp ? emp : cat(unit(46), ft(v, prec)))
  ensures buf[:nw] == old(buf)[:nw]


trusted func quote(s) (r)

// the text of a duration: a run of digits, a run of unit characters, and so on
def digit(c int) := 48 <= c && c <= 57
fn dl(seq) int
axiom dl: forall s seq :: {dl(s)} 0 <= dl(s) && dl(s) <= len(s) && (dl(s) < len(s) ==> !digit(s[dl(s)]))
axiom dlc: forall s seq, i int :: {dl(s), s[i]} 0 <= i && i < dl(s) ==> digit(s[i])
fn ul(seq) int
axiom ul: forall s seq :: {ul(s)} 0 <= ul(s) && ul(s) <= len(s) && (ul(s) < len(s) ==> s[ul(s)] == 46 || digit(s[ul(s)]))
axiom ulc: forall s seq, i int :: {ul(s), s[i]} 0 <= i && i < ul(s) ==> s[i] != 46 && !digit(s[i])
// the number the first i digits make
fn nv(seq, int) int
axiom nv0: forall s seq, i int :: {nv(s, i)} i <= 0 ==> nv(s, i) == 0
axiom nvs: forall s seq, i int :: {nv(s, i), s[i]} i >= 0 ==> nv(s, i + 1) == 10 * nv(s, i) + s[i] - 48
axiom _nvb: forall s seq, i int :: {nv(s, i)} i > 0 ==> nv(s, i) == 10 * nv(s, i - 1) + s[i - 1] - 48
lemma nvp @i: forall s seq, i int :: {nv(s, i)} 0 <= i && i <= dl(s) ==> 0 <= nv(s, i)
lemma nvm @m: forall s seq, i int, m int :: {nv(s, i), nv(s, m)} 0 <= i && i <= m && m <= dl(s) ==> nv(s, i) <= nv(s, m)

def unitv(u seq) := u == "ns" ? 1 : (u == "us" || u == "µs" || u == "μs" ? 1000 : (u == "ms" ? 1000000 : (u == "s" ? 1000000000 : (u == "m" ? 60000000000 : (u == "h" ? 3600000000000 : (u == "d" ? 86400000000000 : 0))))))
def times(u seq, n int) := u == "ns" ? n : (u == "us" || u == "µs" || u == "μs" ? n * 1000 : (u == "ms" ? n * 1000000 : (u == "s" ? n * 1000000000 : (u == "m" ? n * 60000000000 : (u == "h" ? n * 3600000000000 : (u == "d" ? n * 86400000000000 : 0))))))

// ok: numbers without fraction, each with a known unit; tv: their sum
def unitOf(r seq) := r[:ul(r)]
def after(r seq) := r[ul(r):]
fn ok(seq) bool
axiom ok0: ok(emp)
axiom ok: forall s seq :: {ok(s), dl(s)} len(s) > 0 ==> (ok(s) <==> dl(s) > 0 && unitv(unitOf(s[dl(s):])) > 0 && ok(after(s[dl(s):])))
fn tv(seq) int
axiom tv0: tv(emp) == 0
axiom tv: forall s seq :: {tv(s), dl(s)} len(s) > 0 && ok(s) ==> tv(s) == times(unitOf(s[dl(s):]), nv(s, dl(s))) + tv(after(s[dl(s):]))
axiom _ok: forall s seq :: {ok(s)} len(s) > 0 ==> (ok(s) <==> dl(s) > 0 && unitv(unitOf(s[dl(s):])) > 0 && ok(after(s[dl(s):])))
axiom _tv: forall s seq :: {tv(s)} len(s) > 0 && ok(s) ==> tv(s) == times(unitOf(s[dl(s):]), nv(s, dl(s))) + tv(after(s[dl(s):]))
lemma okd: forall s seq :: {ok(s), s[0]} ok(s) && len(s) > 0 ==> digit(s[0])
fn upto(seq, int) bool
axiom upto: forall s seq, n int :: {upto(s, n)} upto(s, n) <==> len(s) <= n
lemma tvn @n: forall s seq, n int :: {upto(s, n), tv(s)} upto(s, n) && ok(s) ==> tv(s) >= 0
lemma tvp: forall s seq :: {tv(s)} upto(s, len(s)) && ok(s) ==> tv(s) >= 0

func leadingInt(s) (x, rem, err)
  inv 0 <= $i:int && $i:int <= dl(s)
  inv $x:int == nv(s, $i:int) && $x:int <= 9223372036854775808
  ensures err == nil <==> nv(s, dl(s)) <= 9223372036854775808
  ensures err == nil ==> x == nv(s, dl(s)) && rem == s[dl(s):]

func leadingFraction(s) (x, scale, rem)
  inv 0 <= $i:int && $i:int <= dl(s)
  ensures rem == s[dl(s):]

// okf: numbers that may have a fraction, each with a known unit
def fracl(r seq) := len(r) > 0 && r[0] == 46 ? 1 + dl(r[1:]) : 0
fn okf(seq) bool
axiom okf0: okf(emp)
axiom okf: forall s seq :: {okf(s), dl(s)} len(s) > 0 && dl(s) + dl(s[dl(s):][1:]) > 0 && unitv(unitOf(s[dl(s):][fracl(s[dl(s):]):])) > 0 && okf(after(s[dl(s):][fracl(s[dl(s):]):])) ==> okf(s)

def body(s seq) := len(s) > 0 && (s[0] == 45 || s[0] == 43) ? s[1:] : s
func ParseDuration(s) (d, err)
  option splitmap
  option merge
  inv 0 <= $i:int && $i:int <= ul($t:text)
  inv okf($s:string) ==> okf(body(s))
  inv ok(body(s)) ==> ok($s:string) && $d:int + tv($s:string) == tv(body(s))
  inv 0 <= $d:int && $d:int <= 9223372036854775808
  ensures err == nil ==> body(s) == "0" || len(body(s)) > 0 && okf(body(s))
  ensures body(s) == "0" ==> err == nil && d == 0
  ensures body(s) != "0" && len(body(s)) > 0 && ok(body(s)) && s[0] != 45 ==> (err == nil <==> tv(body(s)) < 9223372036854775808) && (err == nil ==> d == tv(body(s)))
  ensures body(s) != "0" && len(body(s)) > 0 && ok(body(s)) && s[0] == 45 ==> (err == nil <==> tv(body(s)) <= 9223372036854775808) && (err == nil ==> d == 0 - tv(body(s)))

// never panics and stays within the buffer; that the text is the one of the
// duration is checked by the harness
func shortDur(d, frac) (r)
  option noat yes
  option merge
  option hide dz ft dl dlc ul ulc nv0 nvs ok0 ok okf okf0 tv tv0 nvp nvm tvn tvp okd upto
  ensures len(r) > 0

func SmartDurationStringEx(d, frac) (r)
  ensures len(r) > 0
func SmartDurationString(d) (r)
  ensures len(r) > 0
func MustParseDuration(s) (d)
  ensures body(s) != "0" && len(body(s)) > 0 && ok(body(s)) && s[0] != 45 && tv(body(s)) < 9223372036854775808 ==> d == tv(body(s))
  ensures body(s) != "0" && len(body(s)) > 0 && ok(body(s)) && s[0] == 45 && tv(body(s)) <= 9223372036854775808 ==> d == 0 - tv(body(s))
