package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// result of one contract
type result struct {
	Contract  string    `json:"contract"`
	Pkg       string    `json:"pkg"`
	Paths     int       `json:"paths"`
	Seconds   float64   `json:"seconds"`
	SolverS   float64   `json:"solver_s"`
	Queries   int       `json:"queries"`
	Cheap     int       `json:"cheap"`
	Obl       []*oblOut `json:"obligations"`
	Functions []string  `json:"functions"`
	Trusted   []string  `json:"trusted"`
	Loops     []string  `json:"loops"`
}

type oblOut struct {
	Name   string        `json:"name"`
	Status string        `json:"status"`
	Detail string        `json:"detail"`
	Where  string        `json:"where"`
	Checks int           `json:"checks"`
	Model  []interface{} `json:"model,omitempty"`
	HasMod bool          `json:"has_model,omitempty"`
}

var (
	flagProp      = flag.String("property", "", "property to decide")
	flagTier      = flag.String("tier", "quick", "quick or thorough")
	flagContracts = flag.String("contracts", "/verif/contracts", "contracts")
	flagRepo      = flag.String("repo", "/repo", "repository")
	flagOut       = flag.String("out", "", "result")
	flagWorker    = flag.Bool("worker", false, "")
	flagVC        = flag.String("vc", "", "contracts to verify (regexp)")
	flagJobs      = flag.Int("j", 0, "workers")
	flagLimit     = flag.Int("limit", 0, "seconds per contract")
	flagReplays   = flag.String("replays", "", "directory for replay files")
)

var vcDecl = regexp.MustCompile(`(?m)^func (VC_(C\d\d)_\w+)\(\)`)
var vcName = regexp.MustCompile(`^VC_(C[0-9][0-9])_\w+$`)

// contractsOf lists the contract functions
func contractsOf(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, pkg := range p.pkgs {
		for _, mem := range pkg.Members {
			if f, ok := mem.(*ssa.Function); ok && vcName.MatchString(f.Name()) {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	if *flagWorker {
		worker()
		return
	}
	p, err := load(*flagRepo, *flagContracts)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var names []string
	re := regexp.MustCompile(*flagVC)
	for _, f := range contractsOf(p) {
		if *flagProp != "" && vcName.FindStringSubmatch(f.Name())[1] != *flagProp {
			continue
		}
		if *flagVC != "" && !re.MatchString(f.Name()) {
			continue
		}
		names = append(names, f.Name())
	}
	lim := *flagLimit
	if lim == 0 {
		lim = 100
		if *flagTier == "thorough" {
			lim = 300
		}
	}
	n := *flagJobs
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	if n > len(names) {
		n = len(names)
	}
	t0 := time.Now()
	res := make([]*result, len(names))
	var wg sync.WaitGroup
	next := make(chan int, len(names))
	for i := range names {
		next <- i
	}
	close(next)
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in *bufio.Writer
			var out *bufio.Reader
			start := func() {
				cmd = exec.Command(os.Args[0], "-worker", "-contracts", *flagContracts, "-repo", *flagRepo, "-limit", fmt.Sprint(lim))
				cmd.Stderr = os.Stderr
				ip, _ := cmd.StdinPipe()
				op, _ := cmd.StdoutPipe()
				in, out = bufio.NewWriter(ip), bufio.NewReaderSize(op, 1<<20)
				cmd.Start()
			}
			start()
			for i := range next {
				fmt.Fprintln(in, names[i])
				in.Flush()
				var r *result
				proc := cmd.Process
				guard := time.AfterFunc(time.Duration(lim+60)*time.Second, func() { proc.Kill() })
				for {
					line, err := out.ReadString('\n')
					if err != nil {
						break
					}
					if strings.HasPrefix(line, "RESULT ") {
						json.Unmarshal([]byte(line[7:]), &r)
						break
					}
					fmt.Print(line)
				}
				guard.Stop()
				if r == nil {
					r = &result{Contract: names[i], Obl: []*oblOut{{Name: "engine", Status: "undecided", Detail: "the verifier ended without a result"}}}
					cmd.Process.Kill()
					cmd.Wait()
					start()
				}
				res[i] = r
			}
			cmd.Process.Kill()
			cmd.Wait()
		}()
	}
	wg.Wait()
	report(p, re, res, time.Since(t0))
}

func worker() {
	p, err := load(*flagRepo, *flagContracts)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	byName := map[string]*ssa.Function{}
	for _, f := range contractsOf(p) {
		byName[f.Name()] = f
	}
	s := newSolver(8000)
	m := newMachine(p, s)
	m.initBase()
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		f := byName[sc.Text()]
		if f == nil {
			fmt.Println("RESULT null")
			continue
		}
		if pf := os.Getenv("GOVC_PROF"); pf != "" {
			w, _ := os.Create(pf)
			pprof.StartCPUProfile(w)
		}
		r := m.one(f, time.Duration(*flagLimit)*time.Second)
		pprof.StopCPUProfile()
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Println("RESULT " + string(b))
	}
}

// wanted collects the obligations a contract must reach
func wanted(p *Program, fn *ssa.Function, out map[string]bool, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	p.body(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := c.Common().StaticCallee()
			if callee == nil {
				continue
			}
			if pkgOf(callee) == specPath {
				k := -1
				switch callee.Name() {
				case "Assert":
					k = 1
				case "AssertAll":
					k = 3
				case "Cover":
					k = 0
				}
				if k >= 0 {
					if cs, ok := c.Common().Args[k].(*ssa.Const); ok && cs.Value != nil {
						out[constant.StringVal(cs.Value)] = callee.Name() == "Cover"
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		wanted(p, a, out, seen)
	}
}

func (m *Machine) one(f *ssa.Function, limit time.Duration) *result {
	t0, s0, q0, c0 := time.Now(), m.s.Time, m.s.Queries, m.s.Cheap
	m.called = map[*ssa.Function]bool{}
	m.trusted = map[string]int{}
	v := m.verify(f, limit)
	r := &result{Contract: f.Name(), Pkg: f.Pkg.Pkg.Path(), Paths: v.paths, Seconds: time.Since(t0).Seconds(), SolverS: (m.s.Time - s0).Seconds(), Queries: m.s.Queries - q0, Cheap: m.s.Cheap - c0}
	undecided := ""
	if len(v.undecided) > 0 {
		undecided = v.undecided[0]
		if len(v.undecided) > 1 {
			undecided += fmt.Sprintf(" (and on %d more paths)", len(v.undecided)-1)
		}
	}
	for _, n := range v.order {
		o := v.obl[n]
		st := o.status
		det := o.detail
		if st == "discharged" && undecided != "" {
			st, det = "undecided", undecided
		}
		r.Obl = append(r.Obl, &oblOut{n, st, det, o.where, o.checks, o.model, o.hasModel})
	}
	if undecided != "" {
		r.Obl = append(r.Obl, &oblOut{Name: "exploration", Status: "undecided", Detail: undecided})
	}
	want := map[string]bool{}
	wanted(m.p, f, want, map[*ssa.Function]bool{})
	for _, n := range sortedNames(want2(want)) {
		if want[n] {
			st := "discharged"
			if !v.covers[n] {
				st = "failed"
			}
			if undecided != "" && st == "failed" {
				st = "undecided"
			}
			r.Obl = append(r.Obl, &oblOut{Name: "reached: " + n, Status: st, Detail: "a point the contract has to reach"})
			continue
		}
		if v.obl[n] == nil && undecided == "" && v.fails == 0 {
			r.Obl = append(r.Obl, &oblOut{Name: n, Status: "failed", Detail: "no path reaches the assertion"})
		}
	}
	for fn := range m.called {
		if strings.HasPrefix(pkgOf(fn), modPath) && pkgOf(fn) != specPath && !strings.HasPrefix(filepath.Base(m.p.prog.Fset.Position(fn.Pos()).Filename), "zz_") && fn.Synthetic == "" {
			r.Functions = append(r.Functions, fn.String())
		}
	}
	sort.Strings(r.Functions)
	for k := range m.trusted {
		r.Trusted = append(r.Trusted, k)
	}
	sort.Strings(r.Trusted)
	for k := range v.loops {
		r.Loops = append(r.Loops, k)
	}
	sort.Strings(r.Loops)
	return r
}

func want2(w map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range w {
		r[k] = true
	}
	return r
}

func writeOut(x interface{}) {
	if *flagOut == "" {
		return
	}
	b, _ := json.MarshalIndent(x, "", " ")
	os.MkdirAll(filepath.Dir(*flagOut), 0755)
	os.WriteFile(*flagOut, b, 0644)
}

func report(p *Program, re *regexp.Regexp, res []*result, wall time.Duration) {
	var obls []map[string]interface{}
	fns := map[string]bool{}
	trusted := map[string]bool{}
	loops := map[string]bool{}
	solver := 0.0
	paths, queries, cheap := 0, 0, 0
	bad := 0
	for _, r := range res {
		solver += r.SolverS
		paths += r.Paths
		queries += r.Queries
		cheap += r.Cheap
		for _, f := range r.Functions {
			fns[f] = true
		}
		for _, f := range r.Trusted {
			trusted[f] = true
		}
		for _, f := range r.Loops {
			loops[f] = true
		}
		nb := 0
		for _, o := range r.Obl {
			st := o.Status
			if st == "undecided" {
				st = "other"
			}
			if st != "discharged" {
				nb++
			}
			e := map[string]interface{}{"name": r.Contract + ": " + o.Name, "status": st, "detail": o.Detail, "where": o.Where, "checks": o.Checks, "contract": r.Contract, "pkg": r.Pkg, "obligation": o.Name}
			if o.HasMod {
				e["model"] = o.Model
			}
			obls = append(obls, e)
		}
		bad += nb
		mark := "ok  "
		if nb > 0 {
			mark = "FAIL"
		}
		fmt.Printf("%s %-50s %3d obligations %5d paths %6d queries %6.1fs (solver %.1fs)\n", mark, r.Contract, len(r.Obl), r.Paths, r.Queries, r.Seconds, r.SolverS)
		shown := 0
		for _, o := range r.Obl {
			if shown++; o.Status == "discharged" {
				shown--
			} else if shown <= 3 {
				fmt.Printf("     %s: %s: %s %s\n", o.Name, o.Status, o.Detail, o.Where)
				if o.HasMod {
					b, _ := json.Marshal(o.Model)
					fmt.Printf("       values %s\n", b)
				}
			}
		}
	}
	keys := func(x map[string]bool) []string {
		r := []string{}
		for k := range x {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	dropped := []string{}
	for _, d := range p.dropped {
		dropped = append(dropped, filepath.Base(d.path))
		for _, x := range vcDecl.FindAllStringSubmatch(string(d.data), -1) {
			if (*flagProp != "" && x[2] != *flagProp) || (*flagVC != "" && !re.MatchString(x[1])) {
				continue
			}
			obls = append(obls, map[string]interface{}{"name": x[1] + ": the contract fits the code", "status": "other", "detail": d.why, "contract": x[1], "obligation": "the contract fits the code"})
			bad++
			fmt.Printf("FAIL %s: the contract does not fit the code: %s\n", x[1], d.why)
		}
	}
	writeOut(map[string]interface{}{"contracts": len(res), "dropped": dropped, "obligations": obls, "functions": keys(fns), "trusted": keys(trusted), "loops": keys(loops), "solver_s": solver, "wall_s": wall.Seconds(), "cheap": cheap, "paths": paths, "queries": queries})
	fmt.Printf("%d contracts, %d obligations, %d not discharged, %d functions of the repository, %.1fs\n", len(res), len(obls), bad, len(fns), wall.Seconds())
	if bad > 0 {
		os.Exit(1)
	}
}
