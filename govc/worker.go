package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

var (
	worker bool
	par    = 1
)

// totals is what the evidence reports, summed over workers.
type totals struct {
	Executed, Modelled map[string]int
	Assumed, UsedC     map[string]bool
	Loops              map[string]string
	Nquick, Ntrivial   int
	Wins               map[string]int
	Time               map[string]float64
	Units              int
}

func newTotals() *totals {
	return &totals{map[string]int{}, map[string]int{}, map[string]bool{}, map[string]bool{}, map[string]string{}, 0, 0, map[string]int{}, map[string]float64{}, 0}
}

func (t *totals) add(o *totals) {
	for k, v := range o.Executed {
		t.Executed[k] += v
	}
	for k, v := range o.Modelled {
		t.Modelled[k] += v
	}
	for k := range o.Assumed {
		t.Assumed[k] = true
	}
	for k := range o.UsedC {
		t.UsedC[k] = true
	}
	for k, v := range o.Loops {
		t.Loops[k] = v
	}
	for k, v := range o.Wins {
		t.Wins[k] += v
	}
	for k, v := range o.Time {
		t.Time[k] += v
	}
	t.Nquick += o.Nquick
	t.Ntrivial += o.Ntrivial
	t.Units += o.Units
}

type unitResult struct {
	Idx int
	Res []oResult
}

func tierCfg() proveCfg {
	if tier == "thorough" {
		return proveCfg{ms: [3]int{3000, 30000, 120000}, split: 8}
	}
	return proveCfg{ms: [3]int{1500, 8000, 25000}, split: 6}
}

func runUnit(e *E, h harness, initMem map[string]*MNode, trace bool) []oResult {
	t1 := time.Now()
	err := e.runHarness(h, initMem)
	gen := time.Since(t1).Seconds()
	if err != nil {
		if trace || os.Getenv("GOVC_V") != "" {
			fmt.Fprintf(os.Stderr, "%-44s GENERATION FAILED %v\n", h.unit(), err)
		}
		return []oResult{{Contract: h.fn.Name(), Unit: h.unit(), Name: "obligation generation", Kind: "generation", Out: err.Error()}}
	}
	c := tierCfg()
	if v := h.opts["split"]; v != "" {
		c.split, _ = strconv.Atoi(v)
	}
	rs := solveAll(e, h, c, par)
	if len(rs) == 0 {
		rs = append(rs, oResult{Contract: h.fn.Name(), Unit: h.unit(), Name: "at least one obligation", Kind: "generation", Out: "no obligations generated"})
	}
	bad := 0
	for _, r := range rs {
		if !r.OK {
			bad++
		}
	}
	if trace || os.Getenv("GOVC_V") != "" {
		var b strings.Builder
		fmt.Fprintf(&b, "%-44s %3d obligations, %d failed (gen %.1fs, total %.1fs, %d quick queries)\n", h.unit(), len(rs), bad, gen, time.Since(t1).Seconds(), e.nquick)
		for i, r := range rs {
			if !r.OK || r.Secs > 3 || trace && os.Getenv("GOVC_VV") != "" {
				fmt.Fprintf(&b, "    %v %-60s %s %.1fs  %s\n", map[bool]string{true: "ok  ", false: "FAIL"}[r.OK], r.Name, r.By, r.Secs, r.Pos)
				if !r.OK && trace {
					fmt.Fprintf(&b, "      pc: %v\n      goal: %v\n", e.obligs[i].pc, e.obligs[i].goal)
				}
			}
		}
		os.Stderr.WriteString(b.String())
	}
	return rs
}

// runWorker serves unit indices from standard input.
func runWorker(prog *ssa.Program, pkgs []*packages.Package, fset *token.FileSet, reg *Registry, us []harness, trace bool) int {
	e := newE(prog, fset, reg)
	e.trace = trace
	initMem := e.runInits(pkgs)
	out := bufio.NewWriter(os.Stdout)
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil {
			break
		}
		b, _ := json.Marshal(unitResult{i, runUnit(e, us[i], initMem, trace)})
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	if e.quick != nil {
		e.quick.in.Close()
		e.quick.cmd.Process.Kill()
	}
	solverMu.Lock() // solvers that lost may still be ending
	b, _ := json.Marshal(totals{e.executed, e.modelled, e.assumed, e.usedC, e.loops, e.nquick, e.ntrivial, solverWins, solverTime, 0})
	solverMu.Unlock()
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
	return 0
}

// runUnits distributes the units over worker processes.
func runUnits(prop string, us []harness, only string) ([]oResult, *totals, error) {
	n := 8
	if len(us) < n {
		n = len(us)
	}
	tot := newTotals()
	tot.Units = len(us)
	if n == 0 {
		return nil, tot, fmt.Errorf("no contracts")
	}
	p := (10 + n - 1) / n
	results := make([][]oResult, len(us))
	done := make([]bool, len(us))
	var mu sync.Mutex
	next := 0
	var firstErr error
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := []string{"-worker", "-par", strconv.Itoa(p), "-prop", prop, "-tier", tier, "-repo", repoDir, "-verif", verifDir, "-only", only}
			for _, a := range os.Args {
				if a == "-trace" {
					args = append(args, a)
				}
			}
			cmd := exec.Command(os.Args[0], args...)
			cmd.Stderr = os.Stderr
			in, _ := cmd.StdinPipe()
			op, _ := cmd.StdoutPipe()
			if err := cmd.Start(); err != nil {
				mu.Lock()
				firstErr = err
				mu.Unlock()
				return
			}
			rd := bufio.NewReaderSize(op, 1<<20)
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(us) {
					break
				}
				fmt.Fprintln(in, i)
				line, err := rd.ReadBytes('\n')
				var r unitResult
				if err == nil {
					err = json.Unmarshal(line, &r)
				}
				mu.Lock()
				if err != nil {
					firstErr = fmt.Errorf("worker failed on %s: %v", us[i].unit(), err)
					mu.Unlock()
					cmd.Process.Kill()
					break
				}
				results[i], done[i] = r.Res, true
				mu.Unlock()
			}
			in.Close()
			if line, err := rd.ReadBytes('\n'); err == nil {
				var t totals
				if json.Unmarshal(line, &t) == nil {
					mu.Lock()
					tot.add(&t)
					mu.Unlock()
				}
			}
			cmd.Wait()
		}()
	}
	wg.Wait()
	var all []oResult
	for i, u := range us {
		if !done[i] {
			all = append(all, oResult{Contract: u.fn.Name(), Unit: u.unit(), Name: "obligation generation", Kind: "generation", Out: "the verifier did not finish"})
			continue
		}
		all = append(all, results[i]...)
	}
	return all, tot, firstErr
}
