package radix

model strings.TrimRightFunc -> radix.modelTrimRightFunc

// the number denoted by a text, as strconv sees it
fn puval(seq, int, int) int
fn puok(seq, int, int) bool
extern func strconv::ParseUint(s, base, bits) (n, err)
  ensures err == nil <==> puok(s, base, bits)
  ensures err == nil ==> n == puval(s, base, bits)
extern func strconv::ParseFloat(s, bits) (f, err)

def digits(s seq) := len(s) > 0 && (forall i int :: {s[i]} 0 <= i && i < len(s) ==> 48 <= s[i] && s[i] <= 57)
def unit1(s seq) := s == "" || len(s) == 1 && bytein(s[0], "kmgtpeKMGTPE")
def suffixB(s seq) := s == "" || s == "B" || s == "b" || s == "iB" || s == "ib"

// never panics, whatever the text
func (*trieS).FromKibiBytes(s, sz) (n)
  option merge
  inv len($s:seq) >= 0

func lemmaKibi(s, digits, unit, suffix) (n)
  requires digits(digits) && unit1(unit) && (suffix == "" || suffix == "B" || suffix == "b" || suffix == "iB" || suffix == "ib") && puok(digits, 0, 64)
  requires digits[len(digits)-1] <= 57 && (len(unit) > 0 ==> unit[0] > 0) && (len(suffix) > 0 ==> suffix[0] > 0) && (len(suffix) > 1 ==> suffix[1] > 0)
  option inline (*trieS).FromKibiBytes
  option merge
  inv len(digits) <= len($s:seq) && len($s:seq) <= len(digits) + len(unit)
  inv $s:seq == cat(digits, unit)[:len($s:seq)]
  ensures unit == "" ==> n == puval(digits, 0, 64)
  ensures unit != "" ==> n == (puval(digits, 0, 64) * (unit[0] == 107 || unit[0] == 75 ? 1024 : (unit[0] == 109 || unit[0] == 77 ? 1048576 : (unit[0] == 103 || unit[0] == 71 ? 1073741824 : (unit[0] == 116 || unit[0] == 84 ? 1099511627776 : (unit[0] == 112 || unit[0] == 80 ? 1125899906842624 : (unit[0] == 101 || unit[0] == 69 ? 1152921504606846976 : 1))))))) % pow2(64)

// never panics, whatever the text
func (*trieS).FromKiloBytes(s, sz) (n)
  option merge
  inv len($s:seq) >= 0

func lemmaKilo(s, digits, unit, suffix) (n)
  requires digits(digits) && unit1(unit) && (suffix == "" || suffix == "B" || suffix == "b") && puok(digits, 0, 64)
  requires digits[len(digits)-1] <= 57 && (len(unit) > 0 ==> unit[0] > 0) && (len(suffix) > 0 ==> suffix[0] > 0) && (len(suffix) > 1 ==> suffix[1] > 0)
  option inline (*trieS).FromKiloBytes
  option merge
  inv len(digits) <= len($s:seq) && len($s:seq) <= len(digits) + len(unit)
  inv $s:seq == cat(digits, unit)[:len($s:seq)]
  ensures unit == "" ==> n == puval(digits, 0, 64)
  ensures unit != "" ==> n == (puval(digits, 0, 64) * (unit[0] == 107 || unit[0] == 75 ? 1000 : (unit[0] == 109 || unit[0] == 77 ? 1000000 : (unit[0] == 103 || unit[0] == 71 ? 1000000000 : (unit[0] == 116 || unit[0] == 84 ? 1000000000000 : (unit[0] == 112 || unit[0] == 80 ? 1000000000000000 : (unit[0] == 101 || unit[0] == 69 ? 1000000000000000000 : 1))))))) % pow2(64)

property R13: (*trieS).FromKibiBytes, (*trieS).FromKiloBytes, lemmaKibi, lemmaKilo
