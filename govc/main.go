package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
	modPath  = "github.com/barnex/bruteray"
	tier     = "quick"
	seed     = 1
)

type harness struct {
	fn      *ssa.Function
	prop    string
	targets []string
	pkgDir  string
	doc     string
	opts    map[string]string
	caseVar string
	caseVal int64
}

func (h harness) unit() string {
	if h.caseVar != "" {
		return fmt.Sprintf("%s[%s=%d]", h.fn.Name(), h.caseVar, h.caseVal)
	}
	return h.fn.Name()
}

// units expands "verif:opt cases=k:lo..hi" into one unit per value of the parameter k.
func units(hs []harness) []harness {
	var r []harness
	for _, h := range hs {
		v := h.opts["cases"]
		if v == "" {
			r = append(r, h)
			continue
		}
		var lo, hi int64
		i := strings.Index(v, ":")
		fmt.Sscanf(v[i+1:], "%d..%d", &lo, &hi)
		for k := lo; k <= hi; k++ {
			g := h
			g.caseVar, g.caseVal = v[:i], k
			r = append(r, g)
		}
	}
	return r
}

type specFile struct {
	dir, name, src string
	data           []byte
}

func specFiles(prop string) (files []specFile, dirs map[string]bool) {
	dirs = map[string]bool{}
	root := filepath.Join(verifDir, "contracts")
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir, name := filepath.Dir(rel), filepath.Base(rel)
		if dir == "lib" {
			return nil
		}
		low := strings.ToLower(name)
		if m := regexp.MustCompile(`^c(\d\d)`).FindStringSubmatch(low); m != nil {
			if "C"+m[1] != prop {
				return nil
			}
			dirs[dir] = true
		}
		b, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		files = append(files, specFile{dir, name, p, b})
		return nil
	})
	// shared specifications only count in packages the property has contracts in
	all := files
	files = nil
	for _, f := range all {
		if dirs[f.dir] {
			files = append(files, f)
		}
	}
	return
}

// Packages of the standard library whose code is executed rather than modelled.
var stdBodies = map[string]bool{"image": true, "image/color": true}

func pkgNameOf(b []byte) string {
	m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b)
	return string(m[1])
}

func overlayFor(files []specFile, tests bool) map[string][]byte {
	ov := map[string][]byte{}
	dirs := map[string]string{}
	lib := filepath.Join(verifDir, "contracts", "lib")
	for _, f := range files {
		isTest := strings.HasSuffix(f.name, "_test.go")
		if isTest && !tests {
			continue
		}
		ov[filepath.Join(repoDir, f.dir, "zz_verif_"+f.name)] = f.data
		if !isTest {
			dirs[f.dir] = pkgNameOf(f.data)
		}
	}
	for d, n := range dirs {
		b, err := os.ReadFile(filepath.Join(lib, "prelude.go"))
		if err != nil {
			panic(err)
		}
		ov[filepath.Join(repoDir, d, "zz_verif_prelude.go")] = []byte(strings.Replace(string(b), "package PKG", "package "+n, 1))
	}
	return ov
}

func load(prop string) (*ssa.Program, []*packages.Package, *token.FileSet, error) {
	files, dirs := specFiles(prop)
	if len(dirs) == 0 {
		return nil, nil, nil, fmt.Errorf("no contracts for %s", prop)
	}
	ov := overlayFor(files, false)
	var pats []string
	for d := range dirs {
		pats = append(pats, "./"+d)
	}
	sort.Strings(pats)
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: repoDir, Fset: fset, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, nil, fmt.Errorf("type errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) || stdBodies[p.Pkg.Path()] {
			p.Build()
		}
	}
	var all []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			all = append(all, p)
		}
	})
	return prog, all, fset, nil
}

func collect(prog *ssa.Program, pkgs []*packages.Package, fset *token.FileSet, prop string) (*Registry, []harness) {
	reg := &Registry{wildRes: map[*ssa.Function]bool{}, local: map[*ssa.Function]bool{}, contracts: map[string]*ssa.Function{}, ifaces: map[string]*ssa.Function{}, pure: map[string]string{}}
	var hs []harness
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			fn := fset.Position(f.Pos()).Filename
			if !strings.Contains(fn, "/zz_verif") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				sf := sp.Func(fd.Name.Name)
				if sf == nil {
					continue
				}
				h := harness{fn: sf, opts: map[string]string{}}
				h.pkgDir, _ = filepath.Rel(repoDir, filepath.Dir(fn))
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
						switch {
						case strings.HasPrefix(t, "verif:target "):
							h.targets = append(h.targets, strings.TrimSpace(t[13:]))
						case strings.HasPrefix(t, "verif:contract "):
							k := strings.TrimSpace(t[15:])
							if strings.HasSuffix(k, " local") { // used for contracts of the same property only
								k = strings.TrimSpace(strings.TrimSuffix(k, " local"))
								reg.local[sf] = true
							}
							reg.contracts[k] = sf
							h.targets = append(h.targets, k)
						case strings.HasPrefix(t, "verif:iface "):
							for i, w := range strings.Fields(t[12:]) {
								if i == 0 {
									reg.ifaces[w] = sf
									h.opts["iface"] = w
								} else {
									reg.pure[w+":"+strings.Fields(t[12:])[0]] = "1"
								}
							}
						case strings.HasPrefix(t, "verif:bounded "):
							h.opts["bounded"] = strings.TrimSpace(t[14:])
						case strings.HasPrefix(t, "verif:opt "):
							kv := strings.SplitN(strings.TrimSpace(t[10:]), "=", 2)
							if len(kv) == 1 {
								kv = append(kv, "1")
							}
							h.opts[kv[0]] = kv[1]
							if kv[0] == "wildresult" {
								reg.wildRes[sf] = true
							}
						default:
							h.doc += t + " "
						}
					}
				}
				if m := regexp.MustCompile(`^(C\d\d)_`).FindStringSubmatch(fd.Name.Name); m != nil && m[1] == prop {
					h.prop = m[1]
					hs = append(hs, h)
				}
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].fn.Name() < hs[j].fn.Name() })
	return reg, hs
}

func newE(prog *ssa.Program, fset *token.FileSet, reg *Registry) *E {
	return &E{
		prog: prog, fset: fset, reg: reg,
		baseMem: map[string]*MNode{}, globals: map[*ssa.Global]*Term{}, tags: map[string]*Term{},
		fnIDs: map[*ssa.Function]int64{}, executed: map[string]int{}, modelled: map[string]int{},
		loops: map[string]string{}, cInfo: map[*ssa.Function]*cfgInfo{}, usedC: map[string]bool{},
		inUse: map[*ssa.Function]int{}, qcache: map[string]string{}, maxUnroll: 300, assumed: map[string]bool{},
		ghost: map[string]Val{},
	}
}

// runInits evaluates package initialisers to learn the values of globals.
func (e *E) runInits(pkgs []*packages.Package) map[string]*MNode {
	st := &State{mem: map[string]*MNode{}, pc: True, env: map[interface{}]Val{}}
	e.lenient = true
	e.spec++
	done := map[*ssa.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		sp := e.prog.Package(p.Types)
		if sp == nil || done[sp] || !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		done[sp] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		init := sp.Func("init")
		if init == nil || len(init.Blocks) < 2 {
			return
		}
		fr := &frame{fn: init, cfg: e.cfg(init)}
		st.env = map[interface{}]Val{}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				func() {
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(Unsupported); ok {
								return
							}
							if _, ok := x.(error); ok {
								return
							}
							panic(x)
						}
					}()
					switch c := in.(type) {
					case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi:
						return
					case *ssa.Call:
						if f, ok := c.Call.Value.(*ssa.Function); ok && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
							return
						}
					case *ssa.Store:
						if _, ok := c.Addr.(*ssa.Global); ok && isOverlayGlobal(e.fset, c.Addr.(*ssa.Global)) {
							return
						}
					}
					e.instr(fr, st, in)
				}()
			}
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
	e.lenient = false
	e.spec--
	return st.mem
}

func isOverlayGlobal(fset *token.FileSet, g *ssa.Global) bool {
	return g.Pos().IsValid() && strings.Contains(fset.Position(g.Pos()).Filename, "/zz_verif")
}

// runHarness generates the obligations of one contract.
func (e *E) runHarness(h harness, initMem map[string]*MNode) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(Unsupported); ok {
				where := ""
				if len(e.stack) > 0 {
					where = " in " + fnName(e.stack[len(e.stack)-1])
				}
				err = fmt.Errorf("outside the verifier's reach: %s%s", u.msg, where)
			} else {
				err = fmt.Errorf("verifier failure: %v\n%s", x, debug.Stack())
			}
		}
	}()
	e.facts, e.obligs, e.invs, e.stack = nil, nil, nil, nil
	e.snaps = nil
	e.mods = nil
	e.quiet, e.spec, e.useMode, e.curUse = 0, 0, 0, nil
	e.round32 = false
	e.curFn = h.fn
	e.curName = h.fn.Name()
	e.maxUnroll = 300
	e.opaque = map[*Term]bool{}
	e.noContracts = h.opts["nocontracts"] != ""
	e.without = h.opts["without"]
	e.devirt = h.opts["devirt"]
	e.wildT = h.opts["wildT"]
	e.noIface = h.opts["noiface"] != ""
	e.pureFn = h.opts["pure"]
	e.peel, _ = strconv.Atoi(h.opts["peel"])
	if v := h.opts["unroll"]; v != "" {
		e.maxUnroll, _ = strconv.Atoi(v)
	}
	st := &State{mem: map[string]*MNode{}, pc: True, env: map[interface{}]Val{}}
	for k, v := range initMem {
		st.mem[k] = v
	}
	var args []Val
	for _, p := range h.fn.Params {
		var v Val
		if in(strings.Split(h.opts["wild"], ","), p.Name()) {
			v = e.symWild(p.Type(), p.Name(), nil)
		} else {
			v = e.symVal(p.Type(), p.Name(), nil, true)
		}
		if h.caseVar == p.Name() {
			v = IntC(h.caseVal)
		}
		args = append(args, v)
		for _, o := range strings.Split(h.opts["opaque"], ",") {
			if o == p.Name() {
				e.opaque[v.(Iface).tag] = true
			}
		}
		// pointers and interfaces passed to contracts are non-nil
		switch x := v.(type) {
		case Ptr:
			st.pc = And(st.pc, Gt(x.ref, IntC(0)))
		case Iface:
			st.pc = And(st.pc, Gt(x.tag, IntC(0)))
		case FuncV:
			st.pc = And(st.pc, Not(Eq(x.id, IntC(0))))
		case Slice:
			if _, ok := und(x.elem).(*types.Interface); ok {
				// elements of interface slices are non-nil
				k := memKey(x.elem, "")
				n := e.node(st, k, x.elem)
				e.fresh++
				bv := Var(Int, fmt.Sprintf("?e%d", e.fresh))
				el := e.readNode(n, x.ref, bv).(Iface)
				e.facts = append(e.facts, Forall([]*Term{bv}, Gt(el.tag, IntC(0))))
			}
			if _, ok := und(x.elem).(*types.Pointer); ok {
				k := memKey(x.elem, "")
				n := e.node(st, k, x.elem)
				e.fresh++
				bv := Var(Int, fmt.Sprintf("?e%d", e.fresh))
				el := e.readNode(n, x.ref, bv).(Ptr)
				e.facts = append(e.facts, Forall([]*Term{bv}, Gt(el.ref, IntC(0))))
			}
		}
	}
	e.unitName = h.fn.Name()
	e.deadline = time.Now().Add(200 * time.Second)
	e.inlineCall(st, h.fn, args, nil)
	// vacuity: the end of the contract must be reachable
	if st.pc == False {
		return fmt.Errorf("vacuous: no execution satisfies the preconditions")
	}
	if h.opts["novacuity"] == "" && e.quickProve(st.pc, False) {
		return fmt.Errorf("vacuous: preconditions are contradictory")
	}
	return nil
}

type oResult struct {
	Contract string
	Unit     string
	Name     string
	Pos      string
	Kind     string
	OK       bool
	By       string
	Secs     float64
	Out      string
	key      string
}

func solveAll(e *E, h harness, cfg proveCfg, par int) []oResult {
	res := make([]oResult, len(e.obligs))
	facts := e.facts
	var wg sync.WaitGroup
	sem := make(chan struct{}, par)
	count := map[string]int{}
	for i, o := range e.obligs {
		nm := o.name
		if o.kind != "ensures" {
			nm = o.name + " @ " + o.pos
		}
		count[nm]++
		if c := count[nm]; c > 1 {
			nm = fmt.Sprintf("%s #%d", nm, c)
		}
		res[i] = oResult{Contract: h.fn.Name(), Unit: h.unit(), Name: nm, Pos: o.pos, Kind: o.kind}
		i, o := i, o
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := prove(facts[:o.nfacts], o.pc, o.goal, cfg)
			res[i].OK, res[i].By, res[i].Secs, res[i].Out = r.ok, r.by, r.secs, r.out
			if r.ok {
				solverMu.Lock()
				solverWins[r.by]++
				solverMu.Unlock()
			}
		}()
	}
	wg.Wait()
	return res
}

type knownFinding struct {
	Property   string `json:"property"`
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Status     string `json:"status"`
}

func loadKnown() []knownFinding {
	var r []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" {
			r = append(r, k)
		}
	}
	return r
}

func main() {
	prop := flag.String("prop", "", "property id")
	tr := flag.Bool("trace", false, "trace")
	only := flag.String("only", "", "run only contracts whose name contains this")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&repoDir, "repo", repoDir, "repository")
	flag.StringVar(&verifDir, "verif", verifDir, "verification directory")
	flag.BoolVar(&worker, "worker", false, "internal")
	flag.IntVar(&par, "par", 1, "solver processes per worker")
	noreplay := flag.Bool("noreplay", false, "do not replay failures")
	replayOnly := flag.Bool("replayonly", false, "only replay contracts on the real code")
	flag.Parse()
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	debug.SetGCPercent(400)
	os.Exit(check(*prop, *only, *tr, *noreplay, *replayOnly))
}

func check(prop, only string, trace, noreplay, replayOnly bool) int {
	t0 := time.Now()
	replayPath := filepath.Join(verifDir, "evidence", "replay_"+prop+".txt")
	os.MkdirAll(filepath.Dir(replayPath), 0o755)
	ev := map[string]interface{}{}
	violation := func(body string, confirmed bool) int {
		os.WriteFile(replayPath, []byte(body), 0o644)
		s := ""
		if !confirmed {
			s = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replayPath, s)
		return 1
	}
	if !worker {
		os.Remove(replayPath)
	}
	prog, pkgs, fset, err := load(prop)
	if err != nil {
		writeEvidence(prop, ev, nil, nil, nil, nil, t0, 1, err.Error())
		fmt.Fprintln(os.Stderr, err)
		return violation("contracts cannot be attached to the current source:\n"+err.Error()+"\n", false)
	}
	reg, hs := collect(prog, pkgs, fset, prop)
	if only != "" {
		var f []harness
		for _, h := range hs {
			if strings.Contains(h.fn.Name(), only) {
				f = append(f, h)
			}
		}
		hs = f
	}
	if replayOnly {
		secs := 2.0
		out := replay(hs, nil, secs)
		fmt.Println(out.text)
		if len(out.found) > 0 {
			return 1
		}
		return 0
	}
	us := units(hs)
	if worker {
		return runWorker(prog, pkgs, fset, reg, us, trace)
	}
	all, tot, werr := runUnits(prop, us, only)
	if werr != nil {
		fmt.Fprintln(os.Stderr, werr)
	}
	known := loadKnown()
	var failed []oResult
	nk := 0
	for _, r := range all {
		if r.OK {
			continue
		}
		isK := false
		for _, k := range known {
			if k.Property == prop && k.Contract == r.Contract && strings.HasPrefix(r.Name, k.Obligation) {
				isK = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				nk++
				break
			}
		}
		if !isK {
			failed = append(failed, r)
		}
	}
	var rep *replayResult
	status := 0
	if len(failed) > 0 {
		status = 1
	}
	if len(failed) > 0 && !noreplay {
		want := map[string]bool{}
		for _, f := range failed {
			want[f.Contract] = true
		}
		var fh []harness
		for _, h := range hs {
			if want[h.fn.Name()] {
				fh = append(fh, h)
			}
		}
		secs := 60.0 / float64(len(fh))
		if secs > 20 {
			secs = 20
		}
		rep = replay(fh, failed, secs)
	} else if tier == "thorough" && !noreplay {
		// validation of the arithmetic assumptions on the real code
		secs := 120.0 / float64(len(hs)+1)
		rep = replay(hs, nil, secs)
		for _, f := range rep.found {
			isK := false
			for _, k := range known {
				if k.Property == prop && k.Contract == f.Contract {
					isK = true
				}
			}
			if !isK {
				status = 1
				failed = append(failed, oResult{Contract: f.Contract, Name: f.Failed, Kind: "replay"})
			}
		}
	}
	writeEvidence(prop, ev, tot, hs, all, rep, t0, len(failed), "")
	if status == 0 {
		n := 0
		for _, r := range all {
			if r.OK {
				n++
			}
		}
		fmt.Printf("OK property=%s contracts=%d obligations=%d discharged=%d wall=%.1fs\n", prop, len(hs), len(all), n, time.Since(t0).Seconds())
		return 0
	}
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", prop)
	confirmed := rep != nil && len(rep.found) > 0
	for _, f := range failed {
		fmt.Fprintf(&b, "FAILED OBLIGATION  %s / %s   (%s)\n", f.Unit, f.Name, f.Pos)
		o := f.Out
		if len(o) > 3000 {
			o = o[:3000] + "\n..."
		}
		fmt.Fprintf(&b, "  verifier output: %s\n\n", strings.ReplaceAll(o, "\n", "\n    "))
		fmt.Fprintf(os.Stderr, "failed obligation: %s / %s (%s)\n", f.Unit, f.Name, f.Pos)
	}
	if rep != nil {
		fmt.Fprintf(&b, "REPLAY ON THE REAL CODE (go test -overlay, contracts executed on concrete inputs)\n%s\n", rep.text)
		if confirmed {
			for _, x := range rep.found {
				fmt.Fprintf(&b, "CONFIRMED: %s violates \"%s\" with %s\n", x.Contract, x.Failed, x.Inputs)
			}
		} else {
			b.WriteString("no failing input found by replay\n")
		}
	}
	return violation(b.String(), confirmed)
}

// ---------- replay ----------

type finding struct{ Contract, Failed, Inputs string }
type replayResult struct {
	found []finding
	stats map[string][2]int
	text  string
}

var modelRe = regexp.MustCompile(`\(define-fun ([^ ]+) \(\) (Real|Int|Bool)\s+([^\n]*(?:\n[^\n(][^\n]*)*)\)`)

func parseModel(out string) map[string]float64 {
	m := map[string]float64{}
	for _, g := range modelRe.FindAllStringSubmatch(out, -1) {
		if v, ok := parseNum(g[3]); ok {
			m[strings.Trim(g[1], "|")] = v
		}
	}
	return m
}

func parseNum(s string) (float64, bool) {
	s = strings.TrimSpace(strings.NewReplacer("(", " ( ", ")", " ) ", "?", "").Replace(s))
	tk := strings.Fields(s)
	pos := 0
	var p func() (float64, bool)
	p = func() (float64, bool) {
		if pos >= len(tk) {
			return 0, false
		}
		t := tk[pos]
		pos++
		if t != "(" {
			v, err := strconv.ParseFloat(t, 64)
			return v, err == nil
		}
		if pos >= len(tk) {
			return 0, false
		}
		op := tk[pos]
		pos++
		a, ok := p()
		if !ok {
			return 0, false
		}
		if op == "-" && pos < len(tk) && tk[pos] == ")" {
			pos++
			return -a, true
		}
		b, ok := p()
		if !ok {
			return 0, false
		}
		if pos < len(tk) {
			pos++
		}
		switch op {
		case "/":
			return a / b, true
		case "-":
			return a - b, true
		}
		return 0, false
	}
	return p()
}

func replay(hs []harness, failed []oResult, secs float64) *replayResult {
	res := &replayResult{stats: map[string][2]int{}}
	if len(hs) == 0 {
		return res
	}
	prop := hs[0].prop
	tmp, err := os.MkdirTemp("", "govc_replay")
	if err != nil {
		res.text = err.Error()
		return res
	}
	defer os.RemoveAll(tmp)
	files, _ := specFiles(prop)
	byDir := map[string][]harness{}
	for _, h := range hs {
		byDir[h.pkgDir] = append(byDir[h.pkgDir], h)
	}
	ov := overlayFor(files, true)
	lib := filepath.Join(verifDir, "contracts", "lib")
	runner, _ := os.ReadFile(filepath.Join(lib, "runner_test.go"))
	var dirs []string
	for d := range byDir {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		pn := byDir[d][0].fn.Pkg.Pkg.Name()
		ov[filepath.Join(repoDir, d, "zz_verif_runner_test.go")] = []byte(strings.Replace(string(runner), "package PKG", "package "+pn, 1))
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nvar verifHarness = map[string]interface{}{\n", pn)
		for _, h := range byDir[d] {
			fmt.Fprintf(&b, "\t%q: %s,\n", h.fn.Name(), h.fn.Name())
		}
		b.WriteString("}\n\nvar verifParams = map[string]string{\n")
		for _, h := range byDir[d] {
			var ps []string
			for _, p := range h.fn.Params {
				ps = append(ps, p.Name())
			}
			fmt.Fprintf(&b, "\t%q: %q,\n", h.fn.Name(), strings.Join(ps, ","))
		}
		b.WriteString("}\n\nvar verifCases = map[string]verifCase{\n")
		for _, h := range byDir[d] {
			if v := h.opts["cases"]; v != "" {
				var lo, hi int64
				i := strings.Index(v, ":")
				fmt.Sscanf(v[i+1:], "%d..%d", &lo, &hi)
				fmt.Fprintf(&b, "\t%q: {%q, %d, %d},\n", h.fn.Name(), v[:i], lo, hi)
			}
		}
		b.WriteString("}\n")
		if _, ok := ov[filepath.Join(repoDir, d, "zz_verif_gens_test.go")]; !ok {
			ov[filepath.Join(repoDir, d, "zz_verif_gens_test.go")] = []byte("package " + pn + "\n\nimport (\n\t\"math/rand\"\n\trfl \"reflect\"\n)\n\nvar verifGens = map[rfl.Type]func(*rand.Rand, int) interface{}{}\n")
		}
		ov[filepath.Join(repoDir, d, "zz_verif_table_test.go")] = []byte(b.String())
	}
	repl := map[string]string{}
	i := 0
	for k, v := range ov {
		f := filepath.Join(tmp, fmt.Sprintf("f%d_%s", i, filepath.Base(k)))
		i++
		os.WriteFile(f, v, 0o644)
		repl[k] = f
	}
	ovj, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ovj, 0o644)
	var models []map[string]float64
	for _, f := range failed {
		if m := parseModel(f.Out); len(m) > 0 {
			models = append(models, m)
		}
	}
	var txt strings.Builder
	for _, d := range dirs {
		var names []string
		for _, h := range byDir[d] {
			names = append(names, h.fn.Name())
		}
		outf := filepath.Join(tmp, "out.json")
		os.Remove(outf)
		job, _ := json.Marshal(map[string]interface{}{"Names": names, "Models": models, "Seed": seed, "Seconds": secs, "Out": outf})
		jf := filepath.Join(tmp, "job.json")
		os.WriteFile(jf, job, 0o644)
		cmd := exec.Command("go", "test", "-overlay", ovf, "-run", "^TestVerifReplay$", "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", int(secs*float64(len(names)))+120), "./"+d)
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "VERIF_JOB="+jf)
		o, err := cmd.CombinedOutput()
		var r struct {
			Found []finding
			Stats map[string][2]int
		}
		if b, e2 := os.ReadFile(outf); e2 == nil {
			json.Unmarshal(b, &r)
		} else if err != nil {
			s := string(o)
			if len(s) > 3000 {
				s = s[:3000]
			}
			fmt.Fprintf(&txt, "%s: replay did not run: %v\n%s\n", d, err, s)
		}
		res.found = append(res.found, r.Found...)
		for k, v := range r.Stats {
			res.stats[k] = v
			fmt.Fprintf(&txt, "  %-50s %d inputs satisfied the preconditions, %d did not\n", k, v[0], v[1])
		}
	}
	for _, f := range res.found {
		fmt.Fprintf(&txt, "  FAILS %s: %s\n     inputs: %s\n", f.Contract, f.Failed, f.Inputs)
	}
	res.text = txt.String()
	return res
}

// ---------- evidence ----------

var baseAssumptions = []string{
	"float64/float32 arithmetic is exact real arithmetic extended with IEEE special values (NaN, +-Inf, signed zero on division); rounding, overflow and underflow are not modelled",
	"machine integers are mathematical integers except 8/16-bit arithmetic and narrowing conversions",
	"inputs of type float are finite unless a contract marks them wild; pointer, interface and function parameters of a contract are non-nil",
	"append returns a fresh backing array (no live alias of spare capacity); pointer parameters of one type do not alias struct fields of that type",
	"termination is not proved; goroutine interleavings are not explored",
	"govc itself (SSA construction by golang.org/x/tools, the VC generator, the term simplifier) and the SMT solvers are trusted",
}

func writeEvidence(prop string, ev map[string]interface{}, e *totals, hs []harness, all []oResult, rep *replayResult, t0 time.Time, violations int, note string) {
	ok := 0
	kinds := map[string]int{}
	var failing []string
	// contracts that fix sizes are bounded checks: counted apart, never as proved
	type bnd struct {
		Contract    string `json:"contract"`
		Bound       string `json:"bound"`
		Obligations int    `json:"obligations"`
		Discharged  int    `json:"discharged"`
	}
	bounded := map[string]*bnd{}
	for _, h := range hs {
		if b := h.opts["bounded"]; b != "" {
			bounded[h.fn.Name()] = &bnd{Contract: h.fn.Name(), Bound: b}
		}
	}
	total := 0
	for _, r := range all {
		if b := bounded[strings.SplitN(r.Contract, "[", 2)[0]]; b != nil {
			b.Obligations++
			if r.OK {
				b.Discharged++
			}
		} else {
			total++
			if r.OK {
				ok++
			}
		}
		if !r.OK {
			failing = append(failing, r.Contract+" / "+r.Name)
		}
		kinds[r.Kind]++
	}
	var bs []*bnd
	for _, b := range bounded {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Contract < bs[j].Contract })
	cov := map[string]interface{}{
		"obligations": total, "discharged": ok,
		"bounded_checks":   bs,
		"checker_cmd":      fmt.Sprintf("/verif/check.sh %s %s", prop, tier),
		"obligation_kinds": kinds,
		"failed":           failing,
		"note":             note,
	}
	var assumptions []string
	assumptions = append(assumptions, baseAssumptions...)
	if e != nil {
		var under []map[string]interface{}
		for _, h := range hs {
			under = append(under, map[string]interface{}{"contract": h.fn.Name(), "functions": h.targets, "text": strings.TrimSpace(h.doc)})
		}
		cov["contracts"] = under
		var ex []string
		for k := range e.Executed {
			if !strings.Contains(k, "C"+prop[1:]+"_") && !strings.Contains(k, ".contract_") {
				ex = append(ex, k)
			}
		}
		sort.Strings(ex)
		cov["repo_functions_covered"] = ex
		var md []string
		for k := range e.Modelled {
			md = append(md, k)
		}
		sort.Strings(md)
		for _, m := range md {
			assumptions = append(assumptions, "assumed contract of "+m)
		}
		for k := range e.Assumed {
			assumptions = append(assumptions, "assumption: "+k)
		}
		var uc []string
		for k := range e.UsedC {
			uc = append(uc, k)
		}
		sort.Strings(uc)
		cov["callee_contracts_used"] = uc
		cov["loops"] = e.Loops
		cov["quick_queries"] = e.Nquick
		cov["safety_conditions_discharged_by_simplifier"] = e.Ntrivial
	}
	if e != nil {
		cov["backend_wins"] = e.Wins
		cov["solver_seconds"] = e.Time
		cov["units"] = e.Units
	}
	cov["trusted_base"] = []string{"govc VC generator", "golang.org/x/tools/go/ssa v0.52.0", "z3 5.3.2 (z3-new)", "z3 4.8.12", "cvc5 1.1.2", "Go type checker"}
	if rep != nil {
		cov["replay"] = rep.stats
	}
	lvl := "proof"
	if l, ok := levelOf(prop); ok {
		lvl = l
	}
	out := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": lvl,
		"coverage": cov, "assumptions": assumptions,
		"wall_s":     time.Since(t0).Seconds(),
		"violations": violations,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
}

func levelOf(prop string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	if err != nil {
		return "", false
	}
	var m struct {
		Checks []struct{ Property, Level string }
	}
	if json.Unmarshal(b, &m) != nil {
		return "", false
	}
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level, true
		}
	}
	return "", false
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
