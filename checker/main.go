package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

var (
	fProp    = flag.String("prop", "", "property to decide")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fDir     = flag.String("dir", "/verif", "directory of the verification files")
	fRepo    = flag.String("repo", "/repo", "repository")
	fRun     = flag.String("run", "", "run the harnesses whose name contains this only")
	fTrace   = flag.Bool("trace", false, "trace joins")
	fTrace2  = flag.Bool("trace2", false, "trace facts at joins")
	fProf    = flag.String("cpuprofile", "", "write a profile")
	fVerbose = flag.Bool("v", false, "verbose")
	fNoEv    = flag.Bool("noevidence", false, "write no evidence")
	fSSA     = flag.String("ssa", "", "print a function")
	fOne     = flag.String("one", "", "analyse this harness and print the result as JSON")
	fWorker  = flag.Bool("worker", false, "analyse the harnesses asked for on the standard input")
	fDirty   = flag.String("dirty", "", "what reused objects of pools may contain")
	fLimit   = flag.Int("limit", 600, "seconds for one harness")
)

// intrinsicSrc is added to every package with harnesses.
const intrinsicSrc = `
import vfcontext "context"

func vfAssert(cond bool, msg string)         { panic("intrinsic") }
func vfAssume(cond bool)                     { panic("intrinsic") }
func vfBool() bool                           { panic("intrinsic") }
func vfInt() int                             { panic("intrinsic") }
func vfInt64() int64                         { panic("intrinsic") }
func vfInt32() int32                         { panic("intrinsic") }
func vfUint64() uint64                       { panic("intrinsic") }
func vfUint32() uint32                       { panic("intrinsic") }
func vfUint16() uint16                       { panic("intrinsic") }
func vfByte() byte                           { panic("intrinsic") }
func vfBytes() []byte                        { panic("intrinsic") }
func vfString() string                       { panic("intrinsic") }
func vfErr() error                           { panic("intrinsic") }
func vfSame(a, b []byte) bool                { panic("intrinsic") }
func vfAssertSame(a, b []byte, msg string)   { panic("intrinsic") }
func vfLocksHeld() int                       { panic("intrinsic") }
func vfUnroll()                              { panic("intrinsic") }
func vfFold()                                { panic("intrinsic") }
func vfWide()                                { panic("intrinsic") }
func vfManyCPUs()                            { panic("intrinsic") }
func vfTrack(what string)                    { panic("intrinsic") }
func vfLogged() int                          { panic("intrinsic") }
func vfUnflushed() bool                      { panic("intrinsic") }
func vfTimers() int                          { panic("intrinsic") }
func vfExpired() int64                       { panic("intrinsic") }
func vfArmed() int                           { panic("intrinsic") }
func vfBlocked() int                         { panic("intrinsic") }
func vfQuietTimers()                         { panic("intrinsic") }
func vfLockEpoch() int                       { panic("intrinsic") }
func vfLockToken() int                       { panic("intrinsic") }
func vfOnListen(f any)                       { panic("intrinsic") }
func vfLockOwner(id int) bool                { panic("intrinsic") }
func vfPoolLive() int                        { panic("intrinsic") }
func vfShare(p any)                          { panic("intrinsic") }
func vfRunSpawned()                          { panic("intrinsic") }
func vfSpawned() int                         { panic("intrinsic") }
func vfReach(label string)                   { panic("intrinsic") }
func vfAllocBound(limit int)                 { panic("intrinsic") }
func vfOnWait(f func())                      { panic("intrinsic") }
func vfOnLock(f func())                      { panic("intrinsic") }
func vfRepeat(p any)                         { panic("intrinsic") }
func vfHavoc(p any)                          { panic("intrinsic") }
func vfDone(ctx vfcontext.Context) bool      { panic("intrinsic") }
func vfCtx() vfcontext.Context               { panic("intrinsic") }
func vfQuietCtx() vfcontext.Context          { panic("intrinsic") }
func vfStopped() bool                        { panic("intrinsic") }
func vfSignalled() bool                      { panic("intrinsic") }
func vfSignalledAll() bool                   { panic("intrinsic") }
func vfWaiting() int                         { panic("intrinsic") }
func vfClearSignals()                        { panic("intrinsic") }
func vfReleased(p any) bool                  { panic("intrinsic") }
func vfAliases(a, b any) bool                { panic("intrinsic") }
func vfDump(v ...any)                        { panic("intrinsic") }
func vfEnd()                                 { panic("intrinsic") }

var vfKeep = []any{vfAssert, vfAssume, vfBool, vfInt, vfInt64, vfInt32, vfUint64, vfUint32, vfUint16, vfByte, vfBytes, vfString, vfErr, vfSame, vfAssertSame, vfLocksHeld, vfRunSpawned, vfSpawned, vfReach, vfAllocBound, vfOnWait, vfOnLock, vfRepeat, vfHavoc, vfDone, vfCtx, vfQuietCtx, vfStopped, vfSignalled, vfSignalledAll, vfWaiting, vfClearSignals, vfReleased, vfAliases, vfDump, vfEnd, vfUnroll, vfWide, vfFold, vfManyCPUs, vfTrack, vfLogged, vfUnflushed, vfTimers, vfArmed, vfExpired, vfBlocked, vfQuietTimers, vfLockEpoch, vfLockToken, vfPoolLive, vfShare, vfOnListen, vfLockOwner}
`

type program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  []*packages.Package
	spkgs map[string]*ssa.Package
}

func overlay() (map[string][]byte, error) {
	ov := map[string][]byte{}
	root := filepath.Join(*fDir, "checker", "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dir := filepath.Join(repoDir, filepath.Dir(rel))
		ov[filepath.Join(dir, "zz_verif_"+filepath.Base(rel))] = b
		key := filepath.Join(dir, "zz_verif_intrinsics.go")
		if ov[key] == nil {
			name := ""
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					name = strings.TrimSpace(strings.TrimPrefix(l, "package "))
					break
				}
			}
			ov[key] = []byte("package " + name + "\n" + intrinsicSrc)
		}
		return nil
	})
	return ov, err
}

// dropped lists the harness functions that do not type-check with the
// current source.
var dropped []string

func load() (*program, []string) {
	ov, err := overlay()
	if err != nil {
		return nil, []string{err.Error()}
	}
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir, Overlay: ov, Fset: token.NewFileSet(),
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
		pkgs, err := packages.Load(cfg, "./pkg/...", "./spop", "./peers", "./peers/sticktable", "./zzverif", "slices", "maps")
		if err != nil {
			return nil, []string{err.Error()}
		}
		var errs []string
		var broken []string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				broken = append(broken, e.Pos)
			}
		}
		if len(errs) > 0 {
			if round > 20 || !dropBroken(ov, broken) {
				return nil, errs
			}
			continue
		}
		prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		pr := &program{fset: cfg.Fset, prog: prog, pkgs: pkgs, spkgs: map[string]*ssa.Package{}}
		for _, p := range sp {
			if p != nil {
				pr.spkgs[p.Pkg.Path()] = p
			}
		}
		pr.findGoModels()
		return pr, nil
	}
}

// dropBroken blanks the declarations of harnesses in which errors are; it
// fails when an error is elsewhere.
func dropBroken(ov map[string][]byte, at []string) bool {
	any := false
	for _, pos := range at {
		f := strings.Split(pos, ":")
		if len(f) < 2 || !strings.HasPrefix(filepath.Base(f[0]), "zz_verif_") || strings.HasSuffix(f[0], "_intrinsics.go") || ov[f[0]] == nil {
			continue
		}
		line, _ := strconv.Atoi(f[1])
		fs := token.NewFileSet()
		src := ov[f[0]]
		file, err := parser.ParseFile(fs, f[0], src, 0)
		if err != nil {
			continue
		}
		blank := func(n ast.Node) {
			for i := fs.Position(n.Pos()).Offset; i < fs.Position(n.End()).Offset; i++ {
				if src[i] != '\n' {
					src[i] = ' '
				}
			}
			any = true
		}
		has := func(n ast.Node) bool {
			return fs.Position(n.Pos()).Line <= line && line <= fs.Position(n.End()).Line
		}
		for _, d := range file.Decls {
			if !has(d) {
				continue
			}
			switch d := d.(type) {
			case *ast.FuncDecl:
				dropped = append(dropped, fmt.Sprintf("%s.%s", file.Name.Name, d.Name.Name))
				blank(d)
			case *ast.GenDecl:
				if len(d.Specs) == 1 || d.Lparen == token.NoPos {
					blank(d)
					continue
				}
				for _, s := range d.Specs {
					if has(s) {
						blank(s)
					}
				}
			}
		}
	}
	return any
}

func (pr *program) newX() *X {
	x := &X{prog: pr.prog, fset: pr.fset, own: map[string]bool{}, globals: map[*ssa.Global]int32{}, infos: map[*ssa.Function]*fnInfo{},
		keepBool: map[int32]bool{}, tokConst: map[int32]string{}, buf: &[]report{}, maxStep: 6000000,
		visited: map[*ssa.Function]bool{}, sites: map[string]int{}, unmodel: map[string]bool{}, reached: map[string]bool{}, uniq: map[int32]bool{},
		poolDirty: map[string]bool{}, pools: map[int32]*poolInfo{}, loopsSeen: map[string]string{}, ctxQuiet: map[int32]bool{}, track: map[string]bool{}, starter: map[string]string{}, goBy: map[goKey]string{}}
	for p := range pr.spkgs {
		if strings.HasPrefix(p, modPath) {
			x.own[p] = true
		}
	}
	return x
}

// initState analyses the initialisation of the packages.
func (x *X) initState(pr *program) *State {
	s := newState()
	var names []string
	for n := range pr.spkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	x.quiet++
	defer func() { x.quiet-- }()
	for _, n := range names {
		if strings.HasSuffix(n, "/testutil") || !x.own[n] || n == modelPath {
			continue
		}
		f := pr.spkgs[n].Func("init")
		out := x.call(s, f, nil, nil, false)
		var alive []*State
		for _, o := range out {
			if o.pan == nil {
				alive = append(alive, o)
			}
		}
		if len(alive) != 1 {
			x.giveUp("initialisation of %s has %d outcomes", n, len(alive))
		}
		s = alive[0]
		s.ret = nil
	}
	// variables assigned outside initialisation have unknown values
	for g := range x.storedGlobals(pr) {
		if id, ok := x.globals[g]; ok && s.heap[id] != nil {
			o := s.mut(id)
			o.f = map[string]Val{}
			o.lazy = true
		}
	}
	return s
}

func (x *X) storedGlobals(pr *program) map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(x.prog) {
		if fn.Blocks == nil || fn.Name() == "init" || isHarness(fn) {
			continue
		}
		if fn.Pkg == nil || !x.own[fn.Pkg.Pkg.Path()] || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for {
					switch v := a.(type) {
					case *ssa.FieldAddr:
						a = v.X
						continue
					case *ssa.IndexAddr:
						a = v.X
						continue
					}
					break
				}
				if g, ok := a.(*ssa.Global); ok && x.own[g.Pkg.Pkg.Path()] {
					r[g] = true
				}
			}
		}
	}
	return r
}

// runHarness analyses one harness function.
func (x *X) runHarness(base *State, fn *ssa.Function) (res result) {
	t0 := time.Now()
	res.Name = fn.Pkg.Pkg.Name() + "." + fn.Name()
	var buf []report
	x.buf = &buf
	x.steps, x.depth, x.quiet = 0, 0, 0
	x.raw = strings.HasSuffix(fn.Name(), "_raw")
	x.harness = res.Name
	x.acc, x.thread = nil, ""
	x.approx = ""
	defer func() {
		if e := recover(); e != nil {
			msg := ""
			if st, ok := e.(stopErr); ok {
				msg = st.msg
			} else {
				msg = fmt.Sprint("internal error: ", e)
				if *fVerbose {
					msg += "\n" + string(debug.Stack())
				}
			}
			buf = append(buf, report{"undecided", res.Name, msg, x.posn(x.curPos)})
		}
		res.Reports = buf
		res.Wall = time.Since(t0).Seconds()
		res.Steps = x.steps
	}()
	s := base.clone()
	outs := x.call(s, fn, nil, nil, false)
	res.Paths = len(outs)
	for _, o := range outs {
		if o.pan == nil {
			continue
		}
		p := o.pan
		if p.user {
			buf = append(buf, report{"harness", res.Name, p.kind + " in the harness", p.pos}.in(o))
			continue
		}
		at := o.last
		if at == "" {
			at = res.Name
		}
		buf = append(buf, report{"panic", p.site, fmt.Sprintf("%s can panic, reached from %s", p.kind, at), p.pos}.in(o))
	}
	buf = append(buf, x.races()...)
	gaveUp := x.approx != ""
	for _, r := range buf {
		gaveUp = gaveUp || r.Rule == "undecided"
	}
	for _, l := range labels(fn) {
		if !x.reached[l] && !gaveUp {
			buf = append(buf, report{"vacuous", res.Name, "no analysed path reaches " + strconv.Quote(l), x.posn(fn.Pos())})
		}
	}
	return
}

// labels are the points every harness must reach.
func labels(fn *ssa.Function) []string { return labelsIn(fn, map[*ssa.Function]bool{}) }

func labelsIn(fn *ssa.Function, seen map[*ssa.Function]bool) []string {
	var r []string
	if seen[fn] {
		return nil
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			if f := c.Call.StaticCallee(); f != nil && isHarness(f) && f.Parent() == nil && f.Name() != "vfReach" {
				r = append(r, labelsIn(f, seen)...)
			} else if f != nil && f.Name() == "vfReach" {
				if k, ok := c.Call.Args[0].(*ssa.Const); ok {
					s, _ := strconv.Unquote(k.Value.ExactString())
					r = append(r, s)
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		r = append(r, labelsIn(a, seen)...)
	}
	return r
}

func (pr *program) harnesses(prefix string) []*ssa.Function {
	var r []*ssa.Function
	for _, p := range pr.spkgs {
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) && len(f.Params) == 0 {
				r = append(r, f)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].RelString(nil) < r[j].RelString(nil) })
	return r
}

func dedup(rs []report) []report {
	seen := map[string]bool{}
	var out []report
	for _, r := range rs {
		k := r.Rule + "|" + r.Construct + "|" + r.Detail
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	return out
}

func main() {
	flag.Parse()
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	repoDir = *fRepo
	debug.SetGCPercent(400)
	t0 := time.Now()
	if *fProp == "" && *fSSA == "" && *fOne == "" && !*fWorker {
		fmt.Println("usage: checker -prop C01")
		os.Exit(2)
	}
	pr, errs := load()
	if pr == nil {
		if *fOne != "" || *fWorker {
			os.Exit(3)
		}
		fail(newMerged(), []report{{"undecided", "package", "the packages do not type-check: " + strings.Join(errs, "; "), "?"}}, nil, t0)
		return
	}
	if *fSSA != "" {
		for f := range ssautil.AllFunctions(pr.prog) {
			if strings.Contains(f.RelString(nil), *fSSA) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *fWorker {
		work(pr)
		return
	}
	if *fOne != "" {
		child(pr, *fOne)
		return
	}
	hs := pr.harnesses("vf" + *fProp + "_")
	var names []string
	for _, h := range hs {
		if *fRun == "" || strings.Contains(h.Name(), *fRun) {
			names = append(names, h.RelString(nil))
		}
	}
	if *fRun == "" {
		// the contracts of the integer codec that the analysis relies on
		for _, l := range lemmas[*fProp] {
			names = append(names, modPath+"pkg/encoding."+l)
		}
	}
	m := newMerged()
	var all []report
	var scouts []string
	for _, h := range pr.harnesses("vfC10_") {
		if *fProp != "C10" && *fRun == "" && pooled[*fProp] {
			scouts = append(scouts, h.RelString(nil))
		}
	}
	// rules that are decided on the entry points of other properties as well
	own := map[string]bool{}
	for _, n := range names {
		own[n] = true
	}
	if ex := extra[*fProp]; ex != nil && *fRun == "" {
		for _, p := range ex.props {
			for _, h := range pr.harnesses("vf" + p + "_") {
				if n := h.RelString(nil); !own[n] && !slices.Contains(names, n) {
					names = append(names, n)
				}
			}
		}
	}
	results := runAll(names, scouts, m)
	for i := range results {
		r := &results[i]
		var keep []report
		for _, rep := range r.Reports {
			of := ruleOf[rep.Rule]
			if of != nil && !slices.Contains(of, *fProp) {
				continue
			}
			if !own[names[i]] && rep.Rule != "undecided" && !slices.Contains(extra[*fProp].rules, rep.Rule) {
				continue
			}
			keep = append(keep, rep)
		}
		r.Reports = keep
	}
	for _, r := range results {
		if *fVerbose {
			fmt.Printf("%-40s %6.2fs steps=%d paths=%d reports=%d\n", r.Name, r.Wall, r.Steps, r.Paths, len(r.Reports))
		}
		all = append(all, r.Reports...)
	}
	if *fProp == "C13" {
		all = append(all, lockCycles(results)...)
	}
	l := lints[*fProp]
	for _, d := range dropped {
		if strings.Contains(d, ".vf"+*fProp+"_") {
			all = append(all, report{"undecided", d, "the entry point does not type-check with the current source", "?"})
		}
	}
	if len(hs) == 0 && l == nil && len(all) == 0 {
		all = append(all, report{"vacuous", *fProp, "no harness", "?"})
	}
	if l != nil && (*fRun == "" || *fRun == "lint") {
		all = append(all, runLint(l, pr, m)...)
	}
	fail(m, dedup(all), results, t0)
}

func knownFindings() map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(*fDir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "known: ") {
			m[strings.TrimPrefix(l, "known: ")] = true
		}
	}
	return m
}

func fail(x *merged, rs []report, results []result, t0 time.Time) {
	known := knownFindings()
	bad := 0
	var viol []string
	var open []string
	for i, r := range rs {
		if r.Rule == "undecided" {
			open = append(open, fmt.Sprintf("%s: %s (%s)", r.Construct, r.Detail, r.Pos))
			fmt.Printf("UNDECIDED property=%s %s: %s\n      at %s\n", *fProp, r.Construct, r.Detail, r.Pos)
			continue
		}
		key := fmt.Sprintf("property=%s %s %s: %s", *fProp, r.Rule, r.Construct, r.Detail)
		if known[key] {
			fmt.Printf("KNOWN-FINDING: %s\n", key)
			continue
		}
		bad++
		viol = append(viol, key+" ("+r.Pos+")")
		if i < 40 {
			fmt.Printf("  %s: %s: %s\n      at %s\n", r.Rule, r.Construct, r.Detail, r.Pos)
		}
	}
	if !*fNoEv {
		writeEvidence(x, rs, results, viol, open, time.Since(t0).Seconds())
	}
	fmt.Printf("%s: %d harnesses, %d functions analysed, %d steps, %d rule instances\n", *fProp, len(results), len(x.Visited), totalSteps(results), x.ruleTotal())
	if bad > 0 {
		for _, v := range viol {
			_ = v
		}
		path := filepath.Join(*fDir, "evidence", *fProp+".json")
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		os.Exit(1)
	}
	fmt.Printf("OK property=%s\n", *fProp)
}

func totalSteps(rs []result) int {
	n := 0
	for _, r := range rs {
		n += r.Steps
	}
	return n
}

func writeEvidence(x *merged, rs []report, results []result, viol, open []string, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{}
	var hn []map[string]any
	for _, r := range results {
		hn = append(hn, map[string]any{"harness": r.Name, "steps": r.Steps, "paths": r.Paths, "wall_s": r.Wall, "reports": len(r.Reports)})
	}
	if hn != nil {
		cov["harnesses"] = hn
	}
	obl := 0
	for _, n := range x.Sites {
		obl += n
	}
	cov["functions_analysed"] = keys(x.Visited)
	cov["obligations_discharged_by_rule"] = x.Sites
	cov["loops"] = x.Loops
	cov["pool_state_left_behind"] = x.Dirty
	cov["points_reached"] = keys(x.Reached)
	cov["library_functions_without_model"] = keys(x.Unmodel)
	if len(x.Rules) > 0 {
		cov["rule_instances"] = x.Rules
	}
	cov["explanation"] = fmt.Sprintf("abstract interpretation of the type-checked SSA form of /repo's current source from %d harness entry points (%d obligations discharged), and %d instances of the structural rules; every undischarged obligation or broken instance is a violation", len(results), obl, x.ruleTotal())
	if viol == nil {
		viol = []string{}
	}
	cov["violations_found"] = viol
	if open == nil {
		open = []string{}
	}
	// what the analysis gave up on; empty on the tree the harnesses were written for
	cov["undecided"] = open
	ev := map[string]any{
		"property": *fProp, "tier": *fTier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fDir, "evidence", *fProp+".json"), append(b, '\n'), 0o644)
}

var _ types.Type

var (
	encLemmas = []string{"vfC24_encode_raw", "vfC24_decode_raw", "vfC24_space_raw"}
	// properties whose analysis depends on what pooled objects contain
	pooled = map[string]bool{"C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C09": true, "C11": true, "C12": true, "C23": true}
	lemmas = map[string][]string{
		"C05": encLemmas, "C06": encLemmas, "C07": encLemmas, "C08": encLemmas, "C17": encLemmas, "C20": encLemmas, "C23": encLemmas,
		"C01": {"vfC24_any_raw", "vfC24_truncated_raw"},
		"C09": {"vfC24_any_raw", "vfC24_truncated_raw", "vfC24_decode_raw"},
		"C19": {"vfC24_decode_raw", "vfC24_stream_raw", "vfC24_truncated_raw"},
	}
	lockRules = []string{"lock-leak", "lock-twice", "unlock-not-held", "callback-with-lock", "blocks-with-lock", "wait-without-lock"}
	poolRules = []string{"double-put", "pool-put-nil", "use-after-release"}
	// rules that belong to some properties only
	ruleOf = map[string][]string{
		"race": {"C15"}, "alloc": {"C03"}, "overtaken": {"C12"}, "lost-bytes": {"C21"}, "goroutine-panic": {"C02", "C22"}, "process-exit": {"C02", "C22"},
		"double-put": {"C10"}, "pool-put-nil": {"C10"}, "use-after-release": {"C10"},
		"lock-leak": {"C12", "C13"}, "lock-twice": {"C12", "C13"}, "unlock-not-held": {"C12", "C13"}, "callback-with-lock": {"C13"}, "blocks-with-lock": {"C13"}, "wait-without-lock": {"C13", "C14"},
	}
	sessions = []string{"C02", "C04", "C05", "C10", "C12", "C13", "C14", "C15", "C16", "C19", "C20", "C21", "C22"}
	// entry points of other properties that decide rules of one
	extra = map[string]*struct{ props, rules []string }{
		// (not those of C13, where connections panic)
		"C02": {[]string{"C04", "C05", "C10", "C12", "C14", "C15", "C16", "C19", "C20", "C21", "C22"}, []string{"goroutine-panic", "process-exit"}},
		"C10": {append([]string{"C01", "C03", "C06", "C07", "C23"}, sessions...), poolRules},
		"C13": {append([]string{"C08"}, sessions...), lockRules},
		"C15": {sessions, []string{"race"}},
		"C21": {[]string{"C19", "C22"}, []string{"lost-bytes"}},
	}
)
