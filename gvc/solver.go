package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Feas is a persistent z3 process used to prune infeasible paths. An answer
// other than "unsat" keeps the path, so pruning can only remove paths that the
// solver has refuted.
type Feas struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	queries int
	cache   map[string]string
	spent   time.Duration
	subs    []*Feas
}

const feasWorkers = 7

// CheckMany is Check for several independent queries, run on several solver processes.
func (f *Feas) CheckMany(qs [][]*T, ms int) []string {
	res := make([]string, len(qs))
	type job struct {
		i      int
		key    string
		script string
	}
	var jobs []job
	for i, q := range qs {
		if r, key, ok := f.lookup(q, ms); ok {
			res[i] = r
		} else {
			jobs = append(jobs, job{i, key, buildScript(q)})
		}
	}
	if len(jobs) == 0 {
		return res
	}
	t0 := time.Now()
	for len(f.subs) < feasWorkers && len(f.subs) < len(jobs) {
		f.subs = append(f.subs, NewFeas())
	}
	ch := make(chan job, len(jobs))
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	var wg sync.WaitGroup
	for _, w := range f.subs {
		wg.Add(1)
		go func(w *Feas) {
			defer wg.Done()
			for j := range ch {
				res[j.i] = w.query(j.script, ms)
			}
		}(w)
	}
	wg.Wait()
	for _, j := range jobs {
		f.cache[j.key] = res[j.i]
	}
	f.queries += len(jobs)
	f.spent += time.Since(t0)
	return res
}

func (f *Feas) lookup(asserts []*T, ms int) (string, string, bool) {
	var kb strings.Builder
	for _, a := range asserts {
		if a == False {
			return "unsat", "", true
		}
		fmt.Fprintf(&kb, "%d,", a.id)
	}
	key := fmt.Sprint(ms) + ":" + kb.String()
	r, ok := f.cache[key]
	return r, key, ok
}

var z3bin = "z3-new"

func init() {
	if _, err := exec.LookPath(z3bin); err != nil {
		z3bin = "z3"
	}
}

func NewFeas() *Feas { return &Feas{cache: map[string]string{}} }

func (f *Feas) start() error {
	f.cmd = exec.Command(z3bin, "-in", "-smt2")
	in, err := f.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := f.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	f.in, f.out = in, bufio.NewReader(out)
	return f.cmd.Start()
}

func (f *Feas) Check(asserts []*T, ms int) string {
	r, key, ok := f.lookup(asserts, ms)
	if ok {
		return r
	}
	t0 := time.Now()
	defer func() { f.spent += time.Since(t0) }()
	f.queries++
	res := f.query(buildScript(asserts), ms)
	f.cache[key] = res
	return res
}

func (f *Feas) query(script string, ms int) string {
	if f.cmd == nil {
		if err := f.start(); err != nil {
			return "unknown"
		}
	}
	if os.Getenv("GVC_SLOW") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > slowMin() {
				i := strings.LastIndex(strings.TrimSpace(script), "\n")
				if d := os.Getenv("GVC_SLOWDIR"); d != "" {
					fn := filepath.Join(d, fmt.Sprintf("q%d.smt2", time.Now().UnixNano()))
					os.WriteFile(fn, []byte(script+"(check-sat)\n"), 0o644)
				}
				fmt.Fprintf(os.Stderr, "slow %dms (limit %d): %s\n", d.Milliseconds(), ms, trunc(script[i+1:], 600))
			}
		}()
	}
	// a solver that ignores its time limit is ended; the answer is "unknown" then
	proc := f.cmd.Process
	dog := time.AfterFunc(time.Duration(2*ms)*time.Millisecond+5*time.Second, func() { _ = proc.Kill() })
	defer dog.Stop()
	_, err := fmt.Fprintf(f.in, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"<done>\")\n", ms, script)
	if err != nil {
		f.cmd = nil
		return "unknown"
	}
	res := "unknown"
	for {
		line, err := f.out.ReadString('\n')
		if err != nil {
			f.cmd = nil
			break
		}
		line = strings.TrimSpace(line)
		if strings.Contains(line, "<done>") {
			break
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "z3:", line)
			if os.Getenv("GVC_DUMP") != "" {
				os.WriteFile(os.Getenv("GVC_DUMP"), []byte(script), 0644)
			}
		}
		if line == "sat" || line == "unsat" || line == "unknown" {
			res = line
		}
	}
	return res
}

func (f *Feas) Close() {
	for _, w := range f.subs {
		w.Close()
	}
	if f.cmd != nil {
		f.in.Close()
		f.cmd.Process.Kill()
		f.cmd.Wait()
		f.cmd = nil
	}
}

type SolveRes struct {
	status string // unsat sat unknown
	solver string
	out    string
	dur    time.Duration
}

func runSolver(bin string, args []string, script string, d time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Stdin = strings.NewReader(script)
	b, _ := c.CombinedOutput()
	s := string(b)
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	if first != "sat" && first != "unsat" {
		if strings.Contains(s, "(error") && os.Getenv("GVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, bin, s)
		}
		first = "unknown"
	}
	return first, s
}

// Solve decides one script (already ending without check-sat).
func Solve(script string, secs int) SolveRes {
	t0 := time.Now()
	z := fmt.Sprintf("(set-option :timeout %d)\n%s(check-sat)\n(get-info :reason-unknown)\n", secs*1000, script)
	st, out := runSolver(z3bin, []string{"-in", "-smt2"}, z, time.Duration(secs+2)*time.Second)
	if st == "unsat" {
		return SolveRes{st, z3bin, "", time.Since(t0)}
	}
	zst, zout := st, out
	if st != "sat" {
		cv := "(set-logic ALL)\n" + script + "(check-sat)\n"
		st2, out2 := runSolver("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, cv, time.Duration(secs+2)*time.Second)
		if st2 == "unsat" {
			return SolveRes{st2, "cvc5", "", time.Since(t0)}
		}
		if st2 == "unknown" {
			// different quantifier strategy
			st3, _ := runSolver(z3bin, []string{"-in", "-smt2", "smt.mbqi=false", "smt.random_seed=7"}, z, time.Duration(secs+2)*time.Second)
			if st3 == "unsat" {
				return SolveRes{st3, z3bin + "(no-mbqi)", "", time.Since(t0)}
			}
		}
		zout += "\ncvc5: " + st2 + "\n" + trunc(out2, 2000)
	}
	// model for the report
	m := script + "(check-sat)\n(get-model)\n"
	_, mo := runSolver(z3bin, []string{"-in", "-smt2", "-T:5"}, m, 7*time.Second)
	return SolveRes{zst, z3bin, zout + "\n" + trunc(mo, 20000), time.Since(t0)}
}

func parallel(n, workers int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// slowMin: queries longer than this are reported under GVC_SLOW=milliseconds
func slowMin() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("GVC_SLOW"))
	if n < 2 {
		n = 500
	}
	return time.Duration(n) * time.Millisecond
}
