package main

import "strings"

// seqPrelude is the theory of finite sequences, instantiated per element sort.
// Every axiom is a theorem of finite sequences (validated against a reference
// implementation by prelude_test.go on random instances).
const seqPrelude = `
(declare-sort $Q 0)
(declare-fun len_$S ($Q) Int)
(declare-fun at_$S ($Q Int) $E)
(declare-const emp_$S $Q)
(declare-fun unit_$S ($E) $Q)
(declare-fun cat_$S ($Q $Q) $Q)
(declare-fun sub_$S ($Q Int Int) $Q)
(declare-fun upd_$S ($Q Int $E) $Q)
(declare-fun rep_$S ($E Int) $Q)
(declare-fun eqs_$S ($Q $Q) Bool)
(declare-fun pfx_$S ($Q $Q) Bool)
(assert (forall ((s $Q)) (! (>= (len_$S s) 0) :pattern ((len_$S s)))))
(assert (= (len_$S emp_$S) 0))
(assert (forall ((s $Q)) (! (=> (= (len_$S s) 0) (= s emp_$S)) :pattern ((len_$S s)))))
(assert (forall ((e $E)) (! (and (= (len_$S (unit_$S e)) 1) (= (at_$S (unit_$S e) 0) e)) :pattern ((unit_$S e)))))
(assert (forall ((a $Q) (b $Q)) (! (= (len_$S (cat_$S a b)) (+ (len_$S a) (len_$S b))) :pattern ((cat_$S a b)))))
(assert (forall ((a $Q) (b $Q) (i Int)) (! (=> (and (<= 0 i) (< i (len_$S a))) (= (at_$S (cat_$S a b) i) (at_$S a i))) :pattern ((at_$S (cat_$S a b) i)))))
(assert (forall ((a $Q) (b $Q) (i Int)) (! (=> (and (<= (len_$S a) i) (< i (+ (len_$S a) (len_$S b)))) (= (at_$S (cat_$S a b) i) (at_$S b (- i (len_$S a))))) :pattern ((at_$S (cat_$S a b) i)))))
(assert (forall ((a $Q) (b $Q) (i Int)) (! (=> (and (<= 0 i) (< i (len_$S a))) (= (at_$S (cat_$S a b) i) (at_$S a i))) :pattern ((at_$S a i) (cat_$S a b)))))
(assert (forall ((a $Q) (b $Q) (i Int)) (! (=> (and (<= 0 i) (< i (len_$S b))) (= (at_$S (cat_$S a b) (+ (len_$S a) i)) (at_$S b i))) :pattern ((at_$S b i) (cat_$S a b)))))
(assert (forall ((s $Q) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len_$S s))) (= (len_$S (sub_$S s l h)) (- h l))) :pattern ((sub_$S s l h)))))
(assert (forall ((s $Q) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len_$S s)) (<= 0 i) (< i (- h l))) (= (at_$S (sub_$S s l h) i) (at_$S s (+ l i)))) :pattern ((at_$S (sub_$S s l h) i)))))
(assert (forall ((s $Q) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l i) (< i h) (<= h (len_$S s))) (= (at_$S (sub_$S s l h) (- i l)) (at_$S s i))) :pattern ((at_$S s i) (sub_$S s l h)))))
(assert (forall ((s $Q) (l Int) (h Int)) (! (=> (and (= l 0) (= h (len_$S s))) (= (sub_$S s l h) s)) :pattern ((sub_$S s l h)))))
(assert (forall ((s $Q) (l Int) (m Int) (h Int)) (! (=> (and (<= 0 l) (< l m) (< m h) (<= h (len_$S s))) (= (cat_$S (sub_$S s l m) (sub_$S s m h)) (sub_$S s l h))) :pattern ((sub_$S s l m) (sub_$S s m h)))))
(assert (forall ((s $Q) (l Int) (h Int) (x Int) (y Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len_$S s)) (<= 0 x) (<= x y) (<= y (- h l)) (< (- h l) (len_$S s))) (= (sub_$S (sub_$S s l h) x y) (sub_$S s (+ l x) (+ l y)))) :pattern ((sub_$S (sub_$S s l h) x y)))))
(assert (forall ((s $Q) (e $E) (l Int) (h Int)) (! (=> (and (<= 1 l) (<= l h) (<= h (len_$S s)) (= e (at_$S s (- l 1)))) (= (cat_$S (unit_$S e) (sub_$S s l h)) (sub_$S s (- l 1) h))) :pattern ((cat_$S (unit_$S e) (sub_$S s l h))))))
(assert (forall ((a $Q) (b $Q)) (! (=> (= a emp_$S) (= (cat_$S a b) b)) :pattern ((cat_$S a b)))))
(assert (forall ((a $Q) (b $Q)) (! (=> (= b emp_$S) (= (cat_$S a b) a)) :pattern ((cat_$S a b)))))
(assert (forall ((a $Q) (b $Q) (c $Q)) (! (= (cat_$S (cat_$S a b) c) (cat_$S a (cat_$S b c))) :pattern ((cat_$S (cat_$S a b) c)))))
(assert (forall ((a $Q) (b $Q) (c $Q)) (! (=> (= (cat_$S a b) (cat_$S a c)) (= b c)) :pattern ((cat_$S a b) (cat_$S a c)))))
(assert (forall ((a $Q) (b $Q) (h Int)) (! (=> (= h (len_$S a)) (= (sub_$S (cat_$S a b) 0 h) a)) :pattern ((sub_$S (cat_$S a b) 0 h)))))
(assert (forall ((a $Q) (b $Q) (l Int) (h Int)) (! (=> (and (= l (len_$S a)) (= h (+ (len_$S a) (len_$S b)))) (= (sub_$S (cat_$S a b) l h) b)) :pattern ((sub_$S (cat_$S a b) l h)))))
(assert (forall ((s $Q) (i Int) (e $E)) (! (=> (and (<= 0 i) (< i (len_$S s))) (and (= (len_$S (upd_$S s i e)) (len_$S s)) (= (at_$S (upd_$S s i e) i) e))) :pattern ((upd_$S s i e)))))
(assert (forall ((s $Q) (i Int) (e $E) (j Int)) (! (=> (and (<= 0 i) (< i (len_$S s)) (<= 0 j) (< j (len_$S s)) (not (= i j))) (= (at_$S (upd_$S s i e) j) (at_$S s j))) :pattern ((at_$S (upd_$S s i e) j)))))
(assert (forall ((s $Q) (i Int) (e $E) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len_$S s)) (<= 0 i) (< i (len_$S s)) (or (< i l) (>= i h))) (= (sub_$S (upd_$S s i e) l h) (sub_$S s l h))) :pattern ((sub_$S (upd_$S s i e) l h)))))
(assert (forall ((s $Q) (i Int) (e $E) (l Int) (h Int)) (! (=> (and (= l i) (<= 0 i) (< i h) (<= h (len_$S s))) (= (sub_$S (upd_$S s i e) l h) (cat_$S (unit_$S e) (sub_$S s (+ i 1) h)))) :pattern ((sub_$S (upd_$S s i e) l h)))))
(assert (forall ((e $E) (n Int)) (! (=> (>= n 0) (= (len_$S (rep_$S e n)) n)) :pattern ((rep_$S e n)))))
(assert (forall ((e $E) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (at_$S (rep_$S e n) i) e)) :pattern ((at_$S (rep_$S e n) i)))))
(assert (forall ((a $Q) (b $Q)) (! (=> (eqs_$S a b) (= a b)) :pattern ((eqs_$S a b)))))
(assert (forall ((a $Q) (b $Q)) (! (=> (and (= (len_$S a) (len_$S b)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (len_$S a))) (= (at_$S a i) (at_$S b i))) :pattern ((at_$S a i)) :pattern ((at_$S b i))))) (eqs_$S a b)) :pattern ((eqs_$S a b)))))
(assert (forall ((a $Q) (b $Q)) (! (=> (= a b) (eqs_$S a b)) :pattern ((eqs_$S a b)))))
(assert (forall ((a $Q) (b $Q)) (! (=> (pfx_$S a b) (<= (len_$S a) (len_$S b))) :pattern ((pfx_$S a b)))))
(assert (forall ((a $Q) (b $Q) (i Int)) (! (=> (and (pfx_$S a b) (<= 0 i) (< i (len_$S a))) (= (at_$S a i) (at_$S b i))) :pattern ((pfx_$S a b) (at_$S a i)) :pattern ((pfx_$S a b) (at_$S b i)))))
(assert (forall ((a $Q) (b $Q)) (! (=> (and (<= (len_$S a) (len_$S b)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (len_$S a))) (= (at_$S a i) (at_$S b i))) :pattern ((at_$S a i)) :pattern ((at_$S b i))))) (pfx_$S a b)) :pattern ((pfx_$S a b)))))
(assert (forall ((a $Q) (b $Q)) (! (=> (pfx_$S a b) (= b (cat_$S a (sub_$S b (len_$S a) (len_$S b))))) :pattern ((pfx_$S a b) (sub_$S b (len_$S a) (len_$S b))))))
(assert (forall ((a $Q) (b $Q)) (! (pfx_$S a (cat_$S a b)) :pattern ((pfx_$S a (cat_$S a b))))))
(assert (forall ((a $Q)) (! (pfx_$S a a) :pattern ((pfx_$S a a)))))
(assert (forall ((a $Q)) (! (pfx_$S emp_$S a) :pattern ((pfx_$S emp_$S a)))))
(assert (forall ((a $Q) (b $Q) (c $Q)) (! (=> (and (pfx_$S a b) (pfx_$S b c)) (pfx_$S a c)) :pattern ((pfx_$S a b) (pfx_$S b c)))))
(assert (forall ((a $Q) (b $Q) (c $Q)) (! (=> (and (pfx_$S a c) (pfx_$S b c) (<= (len_$S a) (len_$S b))) (pfx_$S a b)) :pattern ((pfx_$S a c) (pfx_$S b c)))))
(assert (forall ((a $Q) (b $Q)) (! (=> (and (pfx_$S a b) (= (len_$S a) (len_$S b))) (= a b)) :pattern ((pfx_$S a b)))))
`

const basePrelude = `
(set-option :auto_config false)
(set-option :smt.mbqi false)
(declare-sort Val 0)
(declare-sort Flt 0)
(declare-const nilV Val)
(declare-const zeroF Flt)
`

const valPrelude = `
(declare-fun tagV (Val) Int)
(declare-fun boxI (Int Int) Val)
(declare-fun unI (Val) Int)
(declare-fun boxB (Int Bool) Val)
(declare-fun unB (Val) Bool)
(declare-fun boxS (Int SeqI) Val)
(declare-fun unS (Val) SeqI)
(declare-fun boxL (Int SeqS) Val)
(declare-fun unL (Val) SeqS)
(declare-fun boxV (Int SeqV) Val)
(declare-fun unV (Val) SeqV)
(declare-fun boxF (Int Flt) Val)
(declare-fun unF (Val) Flt)
(declare-fun boxW (Int Val) Val)
(declare-fun unW (Val) Val)
(assert (forall ((t Int) (x Val)) (! (and (= (tagV (boxW t x)) t) (= (unW (boxW t x)) x)) :pattern ((boxW t x)))))
(assert (= (tagV nilV) 0))
(assert (forall ((v Val)) (! (=> (= (tagV v) 0) (= v nilV)) :pattern ((tagV v)))))
(assert (forall ((t Int) (x Int)) (! (and (= (tagV (boxI t x)) t) (= (unI (boxI t x)) x)) :pattern ((boxI t x)))))
(assert (forall ((t Int) (x Bool)) (! (and (= (tagV (boxB t x)) t) (= (unB (boxB t x)) x)) :pattern ((boxB t x)))))
(assert (forall ((t Int) (x SeqI)) (! (and (= (tagV (boxS t x)) t) (= (unS (boxS t x)) x)) :pattern ((boxS t x)))))
(assert (forall ((t Int) (x SeqS)) (! (and (= (tagV (boxL t x)) t) (= (unL (boxL t x)) x)) :pattern ((boxL t x)))))
(assert (forall ((t Int) (x SeqV)) (! (and (= (tagV (boxV t x)) t) (= (unV (boxV t x)) x)) :pattern ((boxV t x)))))
(assert (forall ((t Int) (x Flt)) (! (and (= (tagV (boxF t x)) t) (= (unF (boxF t x)) x)) :pattern ((boxF t x)))))
`

// utf8Prelude: enc is string([]rune), dec is []rune(string); they are inverse
// of each other on valid UTF-8 / valid code points, and homomorphisms there.
const utf8Prelude = `
(declare-fun enc (SeqI) SeqI)
(declare-fun dec (SeqI) SeqI)
(declare-fun okS (SeqI) Bool)
(declare-fun okR (SeqI) Bool)
(assert (= (enc emp_I) emp_I))
(assert (= (dec emp_I) emp_I))
(assert (okS emp_I))
(assert (okR emp_I))
(assert (forall ((s SeqI)) (! (okR (dec s)) :pattern ((dec s)))))
(assert (forall ((s SeqI)) (! (=> (okS s) (= (enc (dec s)) s)) :pattern ((dec s)))))
(assert (forall ((r SeqI)) (! (=> (okR r) (and (okS (enc r)) (= (dec (enc r)) r))) :pattern ((enc r)))))
(assert (forall ((a SeqI) (b SeqI)) (! (= (enc (cat_I a b)) (cat_I (enc a) (enc b))) :pattern ((enc (cat_I a b))))))
(assert (forall ((a SeqI) (b SeqI)) (! (=> (and (okS a) (okS b)) (and (okS (cat_I a b)) (= (dec (cat_I a b)) (cat_I (dec a) (dec b))))) :pattern ((dec (cat_I a b))) :pattern ((okS (cat_I a b))))))
(assert (forall ((a SeqI) (b SeqI)) (! (=> (and (okR a) (okR b)) (okR (cat_I a b))) :pattern ((okR (cat_I a b))) :pattern ((enc (cat_I a b))))))
(assert (forall ((s SeqI) (l Int) (h Int)) (! (=> (and (okR s) (<= 0 l) (<= l h) (<= h (len_I s))) (okR (sub_I s l h))) :pattern ((sub_I s l h) (okR s)))))
(assert (forall ((s SeqI) (m Int)) (! (=> (and (< 0 m) (< m (len_I s))) (= (enc s) (cat_I (enc (sub_I s 0 m)) (enc (sub_I s m (len_I s)))))) :pattern ((enc s) (sub_I s m (len_I s))) :pattern ((enc s) (sub_I s 0 m)))))
(assert (forall ((s SeqI)) (! (= (= (dec s) emp_I) (= s emp_I)) :pattern ((dec s)))))
(assert (forall ((s SeqI)) (! (= (= (enc s) emp_I) (= s emp_I)) :pattern ((enc s)))))
(assert (forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (and (okR (unit_I c)) (okS (unit_I c)) (= (enc (unit_I c)) (unit_I c)) (= (dec (unit_I c)) (unit_I c)))) :pattern ((unit_I c)))))
(assert (forall ((a SeqI) (b SeqI)) (! (=> (and (okS a) (okS b) (pfx_I (dec a) (dec b))) (pfx_I a b)) :pattern ((pfx_I (dec a) (dec b))))))
(assert (forall ((a SeqI) (b SeqI)) (! (=> (and (okS a) (okS b) (pfx_I a b)) (pfx_I (dec a) (dec b))) :pattern ((pfx_I a b) (dec a) (dec b)))))
(declare-fun setLen ((Array SeqI Bool)) Int)
(assert (forall ((d (Array SeqI Bool))) (! (>= (setLen d) 0) :pattern ((setLen d)))))
(assert (= (setLen ((as const (Array SeqI Bool)) false)) 0))
(assert (forall ((d (Array SeqI Bool)) (k SeqI)) (! (= (setLen (store d k true)) (ite (select d k) (setLen d) (+ (setLen d) 1))) :pattern ((setLen (store d k true))))))
(assert (forall ((d (Array SeqI Bool)) (k SeqI)) (! (=> (= (setLen d) 0) (not (select d k))) :pattern ((setLen d) (select d k)))))
`

func seqTheory(q, s, e string) string {
	return strings.NewReplacer("$Q", q, "$S", s, "$E", e).Replace(seqPrelude)
}

func prelude() string {
	return basePrelude + seqTheory("SeqI", "I", "Int") + seqTheory("SeqS", "S", "SeqI") + seqTheory("SeqV", "V", "Val") + valPrelude + utf8Prelude
}

// preludeNoAt leaves out the axioms about single elements of sequences.
func preludeNoAt() string {
	var sb strings.Builder
	for _, l := range strings.Split(prelude(), "\n") {
		if !strings.HasPrefix(l, "(assert (forall") || !strings.Contains(l, "(at_") {
			sb.WriteString(l + "\n")
		}
	}
	sb.WriteString("(assert (forall ((e Int)) (! (= (len_I (unit_I e)) 1) :pattern ((unit_I e)))))\n")
	sb.WriteString("(assert (forall ((s SeqI) (i Int) (e Int)) (! (=> (and (<= 0 i) (< i (len_I s))) (= (len_I (upd_I s i e)) (len_I s))) :pattern ((upd_I s i e)))))\n")
	return sb.String()
}
