package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type goalReq struct {
	pc    []*Term
	goal  *Term
	trace []string
	must  bool
}

// declsFor lists the declarations of the constants used in the given texts.
func (x *Exec) usedConsts(texts []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range texts {
		start := -1
		for i := 0; i <= len(s); i++ {
			if i < len(s) && s[i] != ' ' && s[i] != '(' && s[i] != ')' {
				if start < 0 {
					start = i
				}
				continue
			}
			if start >= 0 {
				w := s[start:i]
				start = -1
				if !seen[w] {
					seen[w] = true
					if _, ok := x.consts[w]; ok {
						out = append(out, w)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

var fnRe = regexp.MustCompile(`fn/[^\s()]+`)

// relevantAxioms leaves out the axioms about declared functions that do not
// occur in the obligation.
func (x *Exec) relevantAxioms(pc []*Term, goal *Term) []string {
	have := map[string]bool{}
	note := func(s string) {
		for _, f := range fnRe.FindAllString(s, -1) {
			have[f] = true
		}
	}
	for _, t := range pc {
		note(t.str)
	}
	note(goal.str)
	in := make([]bool, len(x.axioms))
	for changed := true; changed; {
		changed = false
		for i, a := range x.axioms {
			if in[i] {
				continue
			}
			fs := fnRe.FindAllString(a, -1)
			ok := len(fs) == 0
			for _, f := range fs {
				ok = ok || have[f]
			}
			if ok {
				in[i], changed = true, true
				note(a)
			}
		}
	}
	var out []string
	for i, a := range x.axioms {
		if in[i] {
			out = append(out, a)
		}
	}
	return out
}

func (x *Exec) script(pc []*Term, goal *Term) string {
	var texts []string
	axs := x.relevantAxioms(pc, goal)
	texts = append(texts, axs...)
	for _, t := range x.litFacts {
		texts = append(texts, t.str)
	}
	for _, t := range pc {
		texts = append(texts, t.str)
	}
	texts = append(texts, goal.str)
	var sb strings.Builder
	if x.contract != nil && x.contract.opts["noat"] != "" {
		sb.WriteString(preludeNoAt()) // fewer axioms: a proof without them is a proof
	} else {
		sb.WriteString(prelude())
	}
	for _, u := range x.ufOrder {
		sb.WriteString(x.ufs[u] + "\n")
	}
	for _, c := range x.usedConsts(texts) {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", c, x.consts[c])
	}
	for _, a := range axs {
		sb.WriteString("(assert " + a + ")\n")
	}
	for _, t := range x.litFacts {
		sb.WriteString("(assert " + t.str + ")\n")
	}
	for _, t := range pc {
		sb.WriteString("(assert " + t.str + ")\n")
	}
	// the terms under a quantifier take part in matching
	marks := false
	seen := map[string]bool{}
	for _, q := range append(pc[:len(pc):len(pc)], goal) {
		if !q.qv {
			continue
		}
		for _, t := range groundUnder(q, false, nil) {
			if !seen[t.str] {
				if !marks {
					marks = true
					sb.WriteString("(declare-fun mark_I (SeqI) Bool)\n(declare-fun mark_S (SeqS) Bool)\n(declare-fun mark_V (SeqV) Bool)\n")
				}
				seen[t.str] = true
				sb.WriteString("(assert (" + sq("mark", t.sort) + " " + t.str + "))\n")
			}
		}
	}
	sb.WriteString("(assert (not " + goal.str + "))\n(check-sat)\n")
	return sb.String()
}

// groundUnder lists the sequence terms without bound variables under a quantifier.
func groundUnder(t *Term, in bool, out []*Term) []*Term {
	if t.body != nil {
		return groundUnder(t.body, true, out)
	}
	if in && isSeq(t.sort) && len(t.args) > 0 && !strings.Contains(t.str, "?") {
		return append(out, t)
	}
	for _, a := range t.args {
		out = groundUnder(a, in, out)
	}
	return out
}

type solveRes struct {
	res, backend string
	ms           int64
}

type cacheEnt struct {
	once sync.Once
	r    solveRes
}

var (
	solveMu    sync.Mutex
	solveCache = map[string]*cacheEnt{}
	solverSem  = make(chan struct{}, 8)
	cacheDir   = os.Getenv("GOVC_CACHE")
	totalMs    int64
	nQueries   int
)

func runSolver(ctx context.Context, name string, args []string, text string) string {
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(text)
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error " + l
		}
	}
	return "timeout"
}

// solve decides one script; unsat means the obligation is discharged.
func solve(text string, quick int) solveRes {
	h := sha256.Sum256([]byte(text))
	key := hex.EncodeToString(h[:12])
	if quick > 0 {
		key += "q"
		if quick != quickSecs {
			key += strconv.Itoa(quick)
		}
	}
	solveMu.Lock()
	e := solveCache[key]
	if e == nil {
		e = &cacheEnt{}
		solveCache[key] = e
	}
	solveMu.Unlock()
	e.once.Do(func() {
		if cacheDir != "" {
			if b, err := os.ReadFile(filepath.Join(cacheDir, key)); err == nil {
				f := strings.Fields(string(b))
				if len(f) == 3 && (f[0] == "unsat" || !secondRound) {
					ms, _ := strconv.ParseInt(f[2], 10, 64)
					e.r = solveRes{res: f[0], backend: f[1], ms: ms}
					return
				}
			}
		}
		e.r = solve1(text, quick)
		if cacheDir != "" && (e.r.res == "unsat" || e.r.res == "unknown") {
			os.WriteFile(filepath.Join(cacheDir, key), []byte(fmt.Sprintf("%s %s %d", e.r.res, e.r.backend, e.r.ms)), 0o644)
		}
		solveMu.Lock()
		totalMs += e.r.ms
		nQueries++
		solveMu.Unlock()
	})
	return e.r
}

func stripMarks(text string) string {
	var sb strings.Builder
	for len(text) > 0 {
		i := strings.IndexByte(text, '\n')
		if i < 0 {
			i = len(text) - 1
		}
		if !strings.HasPrefix(text, "(assert (mark") {
			sb.WriteString(text[:i+1])
		}
		text = text[i+1:]
	}
	return sb.String()
}

// quickSecs is the time for a candidate invariant.
const quickSecs = 4

func solve1(text string, quick int) solveRes {
	t0 := time.Now()
	var start atomic.Int64 // waiting for a free core does not count
	tryT := func(ctx context.Context, text, bin string, sec int, args ...string) string {
		select {
		case solverSem <- struct{}{}:
		case <-ctx.Done():
			return "timeout"
		}
		defer func() { <-solverSem }()
		if pastDeadline() {
			return "timeout"
		}
		start.CompareAndSwap(0, time.Since(t0).Milliseconds()+1)
		ctx, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
		defer cancel()
		return runSolver(ctx, bin, args, text)
	}
	// first without the extra terms offered for matching
	marked := text
	text = stripMarks(text)
	try := func(ctx context.Context, bin string, sec int, args ...string) string {
		return tryT(ctx, text, bin, sec, args...)
	}
	fin := func(r, b string) solveRes { return solveRes{r, b, time.Since(t0).Milliseconds() - start.Load()} }
	z3a := func(sec int, more ...string) []string {
		return append([]string{"-in", "-memory:3000", fmt.Sprintf("-T:%d", sec)}, more...)
	}
	bg := context.Background()
	if pastDeadline() {
		return fin("timeout", "budget")
	}
	first := 2
	r := try(bg, "z3-new", first, z3a(first)...)
	if r == "unknown" && time.Since(t0).Milliseconds()-start.Load() < 1000 {
		// saturated: again with every defined name kept as a term
		q := tryT(bg, marked, "z3-new", 5, z3a(5, "smt.solve_eqs=false", "smt.elim_unconstrained=false")...)
		if q == "unsat" {
			return fin(q, "z3-5.3.2")
		}
	}
	if r == "unsat" || strings.HasPrefix(r, "error") || quick == quickSecs && r == "unknown" {
		return fin(r, "z3-5.3.2")
	}
	if r == "unknown" && time.Since(t0).Milliseconds()-start.Load() < 1000 {
		// the search space is exhausted: one other solver, briefly
		if q := try(bg, "z3", 5, z3a(5)...); q == "unsat" {
			return fin(q, "z3-4.8.12")
		}
		if quick == 0 {
			nFailed.Add(1)
		}
		return fin(r, "z3-5.3.2")
	}
	if pastDeadline() {
		return fin(r, "budget")
	}
	// a portfolio: the first proof wins
	type alt struct {
		b, bin string
		args   []string
		text   string
	}
	sec := z3Secs
	alts := []alt{
		{"z3-5.3.2", "z3-new", z3a(sec, "smt.random_seed=3"), text},
		{"z3-4.8.12", "z3", z3a(sec), text},
		{"z3-5.3.2/arith2", "z3-new", z3a(sec, "smt.random_seed=7", "smt.arith.solver=2"), text},
		{"z3-5.3.2/marks", "z3-new", z3a(sec, "smt.random_seed=5"), marked},
		{"z3-5.3.2/terms", "z3-new", z3a(sec, "smt.solve_eqs=false", "smt.elim_unconstrained=false"), marked},
		{"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000), "--no-cbqi"}, text},
	}
	if secondRound {
		alts = append(alts, alt{"z3-5.3.2", "z3-new", z3a(sec, "smt.random_seed=11"), text},
			alt{"z3-5.3.2/terms", "z3-new", z3a(sec, "smt.random_seed=13", "smt.solve_eqs=false"), text})
	}
	if quick > 0 {
		sec = quick
		alts = []alt{{"z3-5.3.2", "z3-new", z3a(sec, "smt.random_seed=3"), text}, {"z3-5.3.2", "z3-new", z3a(sec), marked},
			{"z3-5.3.2/terms", "z3-new", z3a(sec, "smt.solve_eqs=false", "smt.elim_unconstrained=false"), marked}}
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	ch := make(chan solveRes, len(alts))
	for _, a := range alts {
		go func() { ch <- solveRes{res: tryT(ctx, a.text, a.bin, sec, a.args...), backend: a.b} }()
	}
	for range alts {
		if q := <-ch; q.res == "unsat" {
			return fin("unsat", q.backend)
		}
	}
	if quick == 0 {
		nFailed.Add(1)
	}
	return fin(r, "z3-5.3.2")
}

// deadline is the wall-clock budget of the whole run (zero: none).
var deadline time.Time

// maxFail ends the search after that many failed obligations (0: never).
var maxFail int64
var nFailed atomic.Int64

func pastDeadline() bool {
	return !deadline.IsZero() && time.Now().After(deadline) || maxFail > 0 && nFailed.Load() >= maxFail
}

var z3Secs = 20

// secondRound: functions with a failed obligation once more, one at a time
// with more time for each obligation, so that a loaded machine decides nothing.
var secondRound bool

func startSecondRound(secs, budget int) {
	solveMu.Lock()
	for k, e := range solveCache {
		if e.r.res != "unsat" {
			delete(solveCache, k)
		}
	}
	solveMu.Unlock()
	secondRound, z3Secs, maxFail = true, secs, 0
	if !deadline.IsZero() {
		deadline = time.Now().Add(time.Duration(budget) * time.Second)
	}
}

// proveAll decides each goal (used for loop invariants).
func (x *Exec) proveAll(gs []goalReq) []bool {
	ok := make([]bool, len(gs))
	var wg sync.WaitGroup
	for i, g := range gs {
		save, sd := x.obls, x.dry
		x.obls, x.dry = nil, 0
		x.splitGoal(g.pc, "inv", g.goal, 0, nil)
		parts := x.obls
		x.obls, x.dry = save, sd
		ok[i] = true
		if len(parts) == 0 {
			continue
		}
		var texts []string
		for _, o := range parts {
			if o.done {
				if o.Result != "unsat" {
					ok[i] = false
				}
				continue
			}
			texts = append(texts, x.script(o.pc, o.goal))
		}
		if !ok[i] || len(texts) == 0 {
			continue
		}
		q := quickSecs
		if g.must {
			q++
			if n, err := strconv.Atoi(x.contract.opts["invsecs"]); err == nil {
				q = n
			}
			if secondRound {
				q *= 3
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, t := range texts {
				_ = k
				r := solve(t, q)
				if r.res != "unsat" {
					if d := os.Getenv("GOVC_DUMPINV"); d != "" && g.must {
						os.WriteFile(fmt.Sprintf("%s/inv.%s.%d.%d.%d.smt2", d, sanitize(x.fnKey), time.Now().UnixMilli()%10000000, i, k), []byte(t), 0o644)
					}
					ok[i] = false
					return
				}
			}
		}()
	}
	wg.Wait()
	return ok
}

// ---------------------------------------------------------------- feasibility

// Session is an incremental solver used to prune infeasible paths.
type Session struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stack []string
	decl  map[string]bool
	nAx   int
	nLit  int
	nUF   int
	cache map[string]string
	dead  bool
}

func newSession() *Session {
	s := &Session{decl: map[string]bool{}, cache: map[string]string{}}
	s.cmd = exec.Command("z3-new", "-in", "-memory:2000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return s
	}
	fmt.Fprint(s.in, "(set-option :global-declarations true)\n"+prelude()+"(set-option :timeout 300)\n")
	return s
}

func (s *Session) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Session) check(x *Exec, pc []*Term) string {
	if s.dead {
		return "unknown"
	}
	var want []string
	var texts []string
	for _, t := range pc {
		if t.qv {
			continue
		}
		want = append(want, t.str)
	}
	k := strings.Join(want, "\n")
	if r, ok := s.cache[k]; ok {
		return r
	}
	common := 0
	for common < len(want) && common < len(s.stack) && want[common] == s.stack[common] {
		common++
	}
	var sb strings.Builder
	if n := len(s.stack) - common; n > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", n)
		s.stack = s.stack[:common]
	}
	for ; s.nUF < len(x.ufOrder); s.nUF++ {
		sb.WriteString(x.ufs[x.ufOrder[s.nUF]] + "\n")
	}
	texts = append(texts, want[common:]...)
	var lits []string
	for ; s.nLit < len(x.litFacts); s.nLit++ {
		lits = append(lits, x.litFacts[s.nLit].str)
	}
	for _, c := range x.usedConsts(append(texts, lits...)) {
		if !s.decl[c] {
			s.decl[c] = true
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", c, x.consts[c])
		}
	}
	for _, w := range want[common:] {
		sb.WriteString("(push 1)\n(assert " + w + ")\n")
		s.stack = append(s.stack, w)
	}
	_ = lits
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.dead = true
		return "unknown"
	}
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "unknown"
	}
	l = strings.TrimSpace(l)
	if strings.HasPrefix(l, "(error") {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "session:", l)
		}
		s.dead = true
		return "unknown"
	}
	s.cache[k] = l
	return l
}
