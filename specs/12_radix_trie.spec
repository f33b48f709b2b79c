package radix

pool radix.prefixJointPool -> *bytes.Buffer

// acc(d, l, n): the first n parts joined by d, empty parts skipped
fn acc(int, seqs, int) seq
fn acc0(int, seqs, int) seq
axiom accdef: forall d int, l seqs, n int :: {acc(d, l, n)} acc(d, l, n) == acc0(d, l, n)
axiom accz: forall d int, l seqs, n int :: {acc(d, l, n)} n <= 0 ==> acc(d, l, n) == ""
axiom accz0: forall d int, l seqs, n int :: {acc0(d, l, n)} n <= 0 ==> acc0(d, l, n) == ""
axiom accs: forall d int, l seqs, n int :: {acc(d, l, n)} n > 0 && n <= len(l) ==> acc(d, l, n) == (l[n-1] == "" ? acc0(d, l, n-1) : (acc0(d, l, n-1) == "" ? l[n-1] : cat(acc0(d, l, n-1), cat(unit(d), l[n-1]))))
lemma accshift @n: forall d int, l seqs, n int :: {acc(d, l[1:], n)} 0 <= n && n < len(l) && l[0] == "" ==> acc(d, l[1:], n) == acc(d, l, n+1)
def joined(d int, l seqs) := acc(d, l, len(l))
// two parts
def join2(d int, a seq, b seq) := (a == "" ? b : (b == "" ? a : cat(a, cat(unit(d), b))))

lemma acc1: forall d int, l seqs :: {acc(d, l, 1)} len(l) >= 1 ==> acc(d, l, 1) == l[0]
lemma acc2: forall d int, l seqs :: {acc(d, l, 2)} len(l) == 2 && acc(d, l, 1) == l[0] ==> acc(d, l, 2) == join2(d, l[0], l[1])

func (*trieS).Join(s, args) (ret)
  requires s != nil && 0 < s.delimiter && s.delimiter < 128
  modifies alloc, Buffer[new]
  inv content($b:*bytes.Buffer) == acc(s.delimiter, args, $i:int)
  inv $n:int >= 0 && ($n:int == 0 <==> content($b:*bytes.Buffer) == "")
  inv $f:bool <==> content($b:*bytes.Buffer) == ""
  inv $f:bool <==> content($b:*bytes.Buffer) != ""
  ensures all: ret == joined(s.delimiter, args)
  ensures two: len(args) == 2 ==> ret == join2(s.delimiter, args[0], args[1])

func (*trieS).join1(s, pre, args) (ret)
  requires s != nil && 0 < s.delimiter && s.delimiter < 128
  modifies alloc, Buffer[new]
  inv content($b:*bytes.Buffer) == acc(s.delimiter, cat(unit(pre), args), $i:int + 1) && content($b:*bytes.Buffer) != ""
  hint eqs(cat(unit(pre), args)[1:], args)
  ensures ret == joined(s.delimiter, cat(unit(pre), args))
