package main

// Instances, reports and the driver.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The kinds of findings.
const (
	kPanic  = "panic"        // a reachable panic
	kCursor = "cursor"       // position outside the input, or moved wrongly
	kAccept = "hidden-error" // succeeds where the specification fails
	kReject = "wrong-error"  // fails where the specification succeeds
	kValue  = "wrong-value"  // a result or target differs
	kAlloc  = "unbounded"    // allocation or iteration not bounded by the input
	kMut    = "mutation"     // the caller's memory is modified
	kGlobal = "shared-state" // package-level state is modified
	kAlias  = "alias"        // handed-out slice can grow over the input
	kBytes  = "wrong-bytes"  // bytes written differ
	kCount  = "wrong-count"  // reported byte count differs
	kErr    = "lost-error"   // an error of the writer is not reported
	kStale  = "stale"        // target keeps what it should not, or loses what it should keep
	kOther  = "rule"
)

type Finding struct {
	Kind string `json:"kind"`
	Inst string `json:"instance"`
	Pos  string `json:"pos,omitempty"`
	Msg  string `json:"message"`
}

type Result struct {
	Inst        string         `json:"instance"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Outcomes    int            `json:"outcomes"`
	Findings    []Finding      `json:"findings,omitempty"`
	Undecided   []string       `json:"undecided,omitempty"`
	Outside     int            `json:"outside,omitempty"`
	Funcs       []string       `json:"functions,omitempty"`
	Notes       map[string]int `json:"notes,omitempty"`
	Instrs      int            `json:"instructions"`
	Checks      int            `json:"safety_checks"`
	Ms          int64          `json:"ms"`
}

// Rep collects what one instance establishes.
type Rep struct {
	x     *Eng
	kinds map[string]bool
	Result
	seen map[string]bool
}

func (r *Rep) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := r.x.fset.Position(p)
	return strings.TrimPrefix(q.Filename, repoDir+"/") + ":" + strconv.Itoa(q.Line)
}

// oblige records one obligation; msg == "" means it is discharged.  sure
// tells whether a failure is definite.
func (r *Rep) oblige(kind string, sure bool, pos token.Pos, msg string) bool {
	if r.kinds != nil && !r.kinds[kind] {
		return msg == ""
	}
	r.Obligations++
	if msg == "" {
		r.Discharged++
		return true
	}
	key := kind + msg
	if r.seen[key] {
		return false
	}
	r.seen[key] = true
	if !sure {
		if len(r.Undecided) < 20 {
			r.Undecided = append(r.Undecided, fmt.Sprintf("%s: %s (%s)", kind, msg, r.pos(pos)))
		}
		return false
	}
	if len(r.Findings) < 20 {
		r.Findings = append(r.Findings, Finding{Kind: kind, Inst: r.Inst, Pos: r.pos(pos), Msg: msg})
	}
	return false
}

func (r *Rep) must(kind string, st *State, ok bool, f string, a ...interface{}) bool {
	m := ""
	if !ok {
		m = fmt.Sprintf(f, a...)
	}
	return r.oblige(kind, !st.f.fuzzy, token.NoPos, m)
}

func (r *Rep) undecided(f string, a ...interface{}) {
	r.Obligations++
	r.Undecided = append(r.Undecided, fmt.Sprintf(f, a...))
}

// panicked records an outcome that panics.
func (r *Rep) panicked(o Outcome) bool {
	if o.pan == nil {
		r.oblige(kPanic, true, token.NoPos, "")
		return false
	}
	fn := ""
	if o.pan.fn != nil {
		fn = o.pan.fn.Name()
	}
	r.oblige(kPanic, !o.st.f.fuzzy, o.pan.pos, fmt.Sprintf("%s in %s at %s", o.pan.why, fn, r.pos(o.pan.pos)))
	return true
}

// Inst is one instance of a rule.
type Inst struct {
	name  string
	kinds map[string]bool
	deep  bool // thorough only
	word  int  // 0: 64 bits
	trace bool
	run   func(x *Eng, r *Rep)
}

type Prop struct {
	id    string
	rule  string
	insts func() []Inst
}

var props []Prop

func kinds(ks ...string) map[string]bool {
	m := map[string]bool{}
	for _, k := range ks {
		m[k] = true
	}
	return m
}

// runInst analyses one instance.
func runInst(p *Prog, in Inst) (res Result) {
	t := time.Now()
	r := &Rep{kinds: in.kinds, seen: map[string]bool{}}
	r.Inst = in.name
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(abortErr); ok {
				r.undecided("analysis stopped: %s", a.why)
			} else {
				r.undecided("analysis failed: %v", e)
				if os.Getenv("CK_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, in.name, e, string(debug.Stack()))
				}
			}
		}
		r.Ms = time.Since(t).Milliseconds()
		if r.x != nil {
			r.Notes = r.x.notes
			r.Instrs = r.x.instrs
			r.Checks = r.x.obls
			for f := range r.x.fnSeen {
				if f.Pkg == r.x.pkg || f.Pkg == nil {
					n := f.RelString(r.x.pkg.Pkg)
					if !strings.Contains(n, "zz") {
						r.Funcs = append(r.Funcs, n)
					}
				}
			}
			sort.Strings(r.Funcs)
		}
		res = r.Result
	}()
	w := in.word
	if w == 0 {
		w = 64
	}
	r.x = newEng(p, w, in.trace)
	r.x.instrs, r.x.obls = 0, 0
	in.run(r.x, r)
	return
}

func findProp(id string) *Prop {
	if id == "ALL" { // development: every rule at once
		return &Prop{"ALL", "every rule", func() []Inst {
			return cat(globalInsts(), reading(nil), writing(nil), allContracts(), caseInsts(), safeInsts(encBin), safeInsts(encCompact), safeInsts(encBorsh))
		}}
	}
	for i := range props {
		if props[i].id == id {
			return &props[i]
		}
	}
	return nil
}

func instsOf(p *Prop, tier string) []Inst {
	var out []Inst
	only := map[string]bool{} // development: a list of instances
	if b, err := os.ReadFile(os.Getenv("CK_ONLY")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			only[l] = true
		}
	}
	for _, in := range p.insts() {
		if len(only) > 0 && !only[in.name] {
			continue
		}
		if in.deep && tier != "thorough" {
			continue
		}
		out = append(out, in)
	}
	if tier == "thorough" {
		for _, in := range p.insts() {
			if in.word == 0 {
				in.word = 32
				in.name += "/32-bit"
				out = append(out, in)
			}
		}
	}
	return out
}

// worker analyses the instances whose names arrive on standard input.
func worker(id, tier string) {
	pr := findProp(id)
	byName := map[string]Inst{}
	for _, in := range instsOf(pr, tier) {
		byName[in.name] = in
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	p, err := loadProg()
	if err != nil {
		enc.Encode(map[string]string{"load_error": err.Error()})
		out.Flush()
		return
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		in, ok := byName[sc.Text()]
		if !ok {
			continue
		}
		enc.Encode(runInst(p, in))
		out.Flush()
	}
}

type job struct{ name string }

// drive distributes the instances over worker processes.
func drive(id, tier string, insts []Inst, limit time.Duration) ([]Result, string) {
	nw := 8
	if len(insts) < nw {
		nw = len(insts)
	}
	jobs := make(chan string, len(insts))
	for _, in := range insts {
		jobs <- in.name
	}
	close(jobs)
	var mu sync.Mutex
	var results []Result
	loadErr := ""
	first := os.Getenv("CK_FIRST") != "" // for development: stop at the first finding
	add := func(r Result) {
		mu.Lock()
		defer mu.Unlock()
		results = append(results, r)
		if first && len(r.Findings) > 0 {
			fmt.Println("FIRST", r.Inst, r.Findings[0].Kind, r.Findings[0].Pos, r.Findings[0].Msg)
			exec.Command("pkill", "-KILL", "-P", strconv.Itoa(os.Getpid())).Run()
			os.Exit(1)
		}
	}
	self, _ := os.Executable()
	deadline := time.Now().Add(limit)
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				name, ok := <-jobs
				if !ok {
					return
				}
				// one process handles a few instances
				cmd := exec.Command(self, "-worker", id, "-tier", tier)
				cmd.Stderr = os.Stderr
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400", "GOMEMLIMIT=3GiB")
				stdin, _ := cmd.StdinPipe()
				stdout, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					add(Result{Inst: name, Obligations: 1, Undecided: []string{"worker did not start: " + err.Error()}})
					continue
				}
				rd := bufio.NewReaderSize(stdout, 1<<20)
				alive := true
				for n := 0; alive && name != ""; n++ {
					fmt.Fprintln(stdin, name)
					type got struct {
						s   string
						err error
					}
					ch := make(chan got, 1)
					go func() { s, err := rd.ReadString('\n'); ch <- got{s, err} }()
					tmo := 240 * time.Second
					if tier == "thorough" {
						tmo = 900 * time.Second
					}
					if d := time.Until(deadline); d < tmo {
						tmo = d
					}
					select {
					case g := <-ch:
						var r Result
						if g.err != nil || json.Unmarshal([]byte(g.s), &r) != nil {
							add(Result{Inst: name, Obligations: 1, Undecided: []string{"worker ended: " + fmt.Sprint(g.err)}})
							alive = false
						} else if r.Inst == "" {
							var m map[string]string
							json.Unmarshal([]byte(g.s), &m)
							mu.Lock()
							loadErr = m["load_error"]
							mu.Unlock()
							alive = false
						} else {
							add(r)
						}
					case <-time.After(tmo):
						add(Result{Inst: name, Obligations: 1, Undecided: []string{"time limit"}})
						alive = false
					}
					name = ""
					if alive && n < 30 {
						name = <-jobs
					}
				}
				stdin.Close()
				if !alive {
					cmd.Process.Kill()
				}
				cmd.Wait()
				mu.Lock()
				stop := loadErr != ""
				mu.Unlock()
				if stop {
					return
				}
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Inst < results[j].Inst })
	return results, loadErr
}

// check runs the check of one property and returns its exit status.
func check(id, tier, outDir string) int {
	t0 := time.Now()
	pr := findProp(id)
	if pr == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	insts := instsOf(pr, tier)
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	results, loadErr := drive(id, tier, insts, limit)
	if f := os.Getenv("CK_COV"); f != "" { // development: which functions an instance analyses
		cov := map[string]interface{}{}
		for _, r := range results {
			cov[r.Inst] = map[string]interface{}{"ms": r.Ms, "funcs": r.Funcs}
		}
		writeJSON(f, cov)
	}
	if os.Getenv("CK_SLOW") != "" {
		rs := append([]Result(nil), results...)
		sort.Slice(rs, func(i, j int) bool { return rs[i].Ms > rs[j].Ms })
		for i := 0; i < len(rs) && i < 25; i++ {
			fmt.Fprintln(os.Stderr, rs[i].Ms, rs[i].Inst)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var finds []Finding
	var und []string
	funcs := map[string]bool{}
	ob, dis, outc, instrs, checks, outside := 0, 0, 0, 0, 0, 0
	var samples []interface{}
	for _, r := range results {
		ob += r.Obligations
		dis += r.Discharged
		outc += r.Outcomes
		instrs += r.Instrs
		checks += r.Checks
		outside += r.Outside
		finds = append(finds, r.Findings...)
		for _, u := range r.Undecided {
			und = append(und, r.Inst+": "+u)
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		if len(samples) < 40 {
			samples = append(samples, fmt.Sprintf("%s: %d outcomes, %d/%d obligations", r.Inst, r.Outcomes, r.Discharged, r.Obligations))
		}
	}
	if loadErr != "" {
		und = append(und, "the package could not be loaded: "+loadErr)
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"rule":                  pr.rule,
		"instances":             len(results),
		"obligations":           ob,
		"discharged":            dis,
		"outcomes":              outc,
		"outside_specification": outside,
		"instructions":          instrs,
		"safety_conditions":     checks,
		"functions_analysed":    fl,
		"undecided":             und,
		"findings":              finds,
		"samples":               samples,
		"explanation":           "Abstract interpretation of the SSA form of /repo's current source; each instance covers all inputs of the stated shape, each outcome is compared with the specification.",
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	os.MkdirAll(outDir, 0o755)
	writeJSON(filepath.Join(outDir, id+".json"), ev)
	fmt.Printf("%s (%s): %d instances, %d outcomes, %d obligations, %d discharged, %d undecided, %d findings, %d functions, %.1f s\n",
		id, tier, len(results), outc, ob, dis, len(und), len(finds), len(fl), time.Since(t0).Seconds())
	for i, u := range und {
		if i == 15 {
			fmt.Printf("UNDECIDED ... %d more\n", len(und)-i)
			break
		}
		fmt.Println("UNDECIDED", clip(u))
	}
	finds = known(id, finds)
	if len(finds) > 0 {
		rp := filepath.Join(outDir, "replay-"+id+".json")
		writeJSON(rp, map[string]interface{}{"property": id, "rule": pr.rule, "findings": finds})
		for i, f := range finds {
			if i < 10 {
				fmt.Printf("  %s [%s] %s %s\n", f.Kind, f.Inst, f.Pos, clip(f.Msg))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	return 0
}

// known removes the findings listed in the known-findings file.
func known(id string, fs []Finding) []Finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return fs
	}
	var out []Finding
	printed := map[string]bool{}
next:
	for _, f := range fs {
		for _, l := range strings.Split(string(b), "\n") {
			// known: property=<id> kind=<kind> instance=<instance> pos-independent text
			if !strings.HasPrefix(l, "known: property="+id+" ") {
				continue
			}
			w := strings.SplitN(strings.TrimPrefix(l, "known: property="+id+" "), " | ", 3)
			if len(w) == 3 && w[0] == f.Kind && w[1] == f.Inst {
				if !printed[l] {
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.Inst, w[2])
					printed[l] = true
				}
				continue next
			}
		}
		out = append(out, f)
	}
	return out
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("cannot write", path, err)
	}
}

var verifDir = "/verif"
