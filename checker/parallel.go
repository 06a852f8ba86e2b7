package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"maps"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// result is what the analysis of one harness says.
type result struct {
	Name    string
	Reports []report
	Wall    float64
	Steps   int
	Paths   int
	Visited []string
	Unmodel []string
	Reached []string
	Sites   map[string]int
	Loops   map[string]string
	Dirty   []string
	Edges   map[string]string
}

// merged is what all of them covered together.
type merged struct {
	Visited, Unmodel, Reached map[string]bool
	Sites                     map[string]int
	Loops                     map[string]string
	Rules                     map[string][]string
	Dirty                     []string
}

func newMerged() *merged {
	return &merged{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]int{}, map[string]string{}, map[string][]string{}, nil}
}

func (m *merged) ruleTotal() int {
	n := 0
	for _, r := range m.Rules {
		n += len(r)
	}
	return n
}

// rule records an instance of a structural rule that was decided.
func (m *merged) rule(name, instance string) {
	m.Rules[name] = append(m.Rules[name], instance)
}

// lints are the rules decided on the SSA form and the call graph directly.
var lints = map[string]func(pr *program, m *merged) []report{}

func runLint(l func(pr *program, m *merged) []report, pr *program, m *merged) (rs []report) {
	defer func() {
		if e := recover(); e != nil {
			if *fVerbose {
				fmt.Println(string(debug.Stack()))
			}
			rs = append(rs, report{"undecided", *fProp, fmt.Sprint("internal error in a rule: ", e), "?"})
		}
	}()
	return l(pr, m)
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// child analyses one harness in this process.
func child(pr *program, name string) {
	x := pr.newX()
	x.trace, x.trace2 = *fTrace, *fTrace2
	for _, d := range strings.Split(*fDirty, ",") {
		if d != "" {
			x.poolDirty[d] = true
		}
	}
	x.deadline = time.Now().Add(time.Duration(*fLimit) * time.Second)
	var res result
	res.Name = name
	base := func() (s *State) {
		defer func() {
			if e := recover(); e != nil {
				msg := fmt.Sprint(e)
				if st, ok := e.(stopErr); ok {
					msg = st.msg
				} else if *fVerbose {
					msg += string(debug.Stack())
				}
				res.Reports = append(res.Reports, report{"undecided", "init", msg, x.posn(x.curPos)})
			}
		}()
		return x.initState(pr)
	}()
	if base != nil {
		var fn *ssa.Function
		for _, h := range pr.harnesses("vf") {
			if h.RelString(nil) == name {
				fn = h
			}
		}
		x.findLengthFns(base)
		for round := 0; round < 6; round++ {
			x.dirtyNew = false
			res = x.runHarness(base, fn)
			if !x.dirtyNew {
				break
			}
		}
	}
	for f := range x.visited {
		if !isHarness(f) && !isModel(f) {
			res.Visited = append(res.Visited, fnName(f))
		}
	}
	res.Unmodel, res.Reached = keys(x.unmodel), keys(x.reached)
	res.Sites, res.Loops = x.sites, x.loopsSeen
	res.Dirty = keys(x.poolDirty)
	res.Edges = x.lockEdges
	b, _ := json.Marshal(res)
	if *fVerbose {
		for _, r := range res.Reports {
			fmt.Printf("  %s: %s: %s\n      at %s\n", r.Rule, r.Construct, r.Detail, r.Pos)
		}
		fmt.Printf("%s %.2fs steps=%d\n", res.Name, res.Wall, res.Steps)
		return
	}
	os.Stdout.WriteString("\nRESULT ")
	os.Stdout.Write(b)
	os.Stdout.WriteString("\n")
}

// runAll analyses the harnesses; scouts are harnesses that are only analysed
// for the state in which they leave pooled objects.
func runAll(names, scouts []string, m *merged) []result {
	all := append(append([]string(nil), names...), scouts...)
	out := make([]result, len(all))
	dirty := map[string]bool{}
	for round := 0; ; round++ {
		given := strings.Join(keys(dirty), ",")
		sem := make(chan bool, max(2, runtime.NumCPU()))
		var wg sync.WaitGroup
		for i, n := range all {
			if round > 0 && strings.Join(out[i].Dirty, ",") == given {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				out[i] = runChild(n, given)
			}()
		}
		wg.Wait()
		n := len(dirty)
		for _, r := range out {
			for _, d := range r.Dirty {
				dirty[d] = true
			}
		}
		if len(dirty) == n {
			break
		}
		if round > 5 {
			out[0].Reports = append(out[0].Reports, report{"undecided", "pools", "the state of pooled objects is not found", "?"})
			break
		}
	}
	stopWorkers()
	m.Dirty = keys(dirty)
	out = out[:len(names)]
	for _, r := range out {
		for _, v := range r.Visited {
			m.Visited[v] = true
		}
		for _, v := range r.Unmodel {
			m.Unmodel[v] = true
		}
		for _, v := range r.Reached {
			m.Reached[v] = true
		}
		for k, n := range r.Sites {
			m.Sites[k] += n
		}
		for k, n := range r.Loops {
			m.Loops[k] = n
		}
	}
	return out
}

// budget is what all harnesses of one property may take together.
const budget = 700 * time.Second

var started = time.Now()

// worker is a process that analyses one harness after the other.
type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

// job is what a worker is asked for.
type job struct {
	Name, Dirty string
	Limit       int
}

var (
	idleMu sync.Mutex
	idle   []*worker
)

func startWorker() (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	w := &worker{cmd: exec.Command(exe, "-worker", "-dir", *fDir, "-repo", *fRepo, "-tier", *fTier), err: &bytes.Buffer{}}
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=3", "GOMEMLIMIT=3500MiB")
	w.cmd.Stderr = w.err
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	return w, w.cmd.Start()
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func stopWorkers() {
	idleMu.Lock()
	defer idleMu.Unlock()
	for _, w := range idle {
		w.stop()
	}
	idle = nil
}

func runChild(name, dirty string) result {
	limit := min(*fLimit, int((budget-time.Since(started))/time.Second))
	if limit <= 0 {
		return result{Name: name, Reports: []report{{"undecided", name, "no time is left for the analysis", "?"}}}
	}
	t0 := time.Now()
	bad := func(why ...any) result {
		msg := fmt.Sprint(why...)
		if len(msg) > 400 {
			msg = msg[:400]
		}
		return result{Name: name, Wall: time.Since(t0).Seconds(), Reports: []report{{"undecided", name, "the analysis ended without a result: " + msg, "?"}}}
	}
	idleMu.Lock()
	var w *worker
	if n := len(idle); n > 0 {
		w, idle = idle[n-1], idle[:n-1]
	}
	idleMu.Unlock()
	if w == nil {
		var err error
		if w, err = startWorker(); err != nil {
			return bad(err)
		}
	}
	timer := time.AfterFunc(time.Duration(limit+30)*time.Second, func() { w.cmd.Process.Kill() })
	defer timer.Stop()
	b, _ := json.Marshal(job{name, dirty, limit})
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		w.stop()
		return bad(err, " ", w.err)
	}
	for {
		line, err := w.out.ReadBytes('\n')
		if err != nil {
			w.stop()
			return bad(err, " ", w.err)
		}
		if r, ok := bytes.CutPrefix(line, []byte("RESULT ")); ok {
			var res result
			if err := json.Unmarshal(r, &res); err != nil {
				w.stop()
				return bad(err)
			}
			if !timer.Stop() {
				w.stop()
				return res
			}
			idleMu.Lock()
			idle = append(idle, w)
			idleMu.Unlock()
			return res
		}
	}
}

// work analyses the harnesses that are asked for on the standard input.
func work(pr *program) {
	in := bufio.NewReader(os.Stdin)
	out := os.Stdout
	fresh := snapshot()
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if json.Unmarshal(line, &j) != nil {
			os.Exit(3)
		}
		fresh()
		*fDirty, *fLimit = j.Dirty, j.Limit
		out.WriteString("\n")
		child(pr, j.Name)
	}
}

// snapshot keeps the global tables of the analysis as they are, and returns a
// function restoring them.
func snapshot() func() {
	type maps1 struct {
		conv    map[Sym]conv
		ctx     map[int32]*ctxInfo
		done    map[int32]int32
		hash    map[string]Sym
		idx     map[string]Lin
		wraps   map[int32][]IfaceV
		timer   map[int32]int32
		addr    map[int32]addrInfo
		tok     map[string]int32
		boolean map[string]int32
		deps    map[Sym][]Sym
		stok    map[Sym]int32
		wid     map[Sym]bool
		rtype   map[int32]types.Type
		canon   map[string][]types.Type
		length  map[*ssa.Function]bool
		div     map[Sym]quot
		byte    map[Sym]bytesAt
		be      map[Sym]bytesAt
		seg     map[int32]bePart
	}
	var wids [4]map[int32]bool
	for i, m := range []map[int32]bool{widBool, widTok, widObj, widOpaque} {
		wids[i] = maps.Clone(m)
	}
	k := maps1{maps.Clone(convOf), maps.Clone(ctxOf), maps.Clone(chanDone), maps.Clone(hashcons), maps.Clone(idxOf), maps.Clone(errWraps), maps.Clone(chanTimer), maps.Clone(addrOf),
		maps.Clone(tokNames), maps.Clone(boolNames), maps.Clone(symDeps), maps.Clone(symTok), maps.Clone(widened), maps.Clone(rtypeOf), maps.Clone(canonTyp), maps.Clone(lengthFns),
		maps.Clone(divOf), maps.Clone(byteOf), maps.Clone(beOf), maps.Clone(segBE)}
	syms, id, states := slices.Clone(symtab), nextID, stateIDs
	return func() {
		convOf, ctxOf, chanDone, hashcons = maps.Clone(k.conv), maps.Clone(k.ctx), maps.Clone(k.done), maps.Clone(k.hash)
		idxOf, errWraps, chanTimer, addrOf = maps.Clone(k.idx), maps.Clone(k.wraps), maps.Clone(k.timer), maps.Clone(k.addr)
		tokNames, boolNames, symDeps, symTok = maps.Clone(k.tok), maps.Clone(k.boolean), maps.Clone(k.deps), maps.Clone(k.stok)
		widened, rtypeOf, canonTyp, lengthFns = maps.Clone(k.wid), maps.Clone(k.rtype), maps.Clone(k.canon), maps.Clone(k.length)
		widBool, widTok, widObj, widOpaque = maps.Clone(wids[0]), maps.Clone(wids[1]), maps.Clone(wids[2]), maps.Clone(wids[3])
		divOf, byteOf, beOf, segBE = maps.Clone(k.div), maps.Clone(k.byte), maps.Clone(k.be), maps.Clone(k.seg)
		symtab, nextID, stateIDs = slices.Clone(syms), id, states
		fmCalls, fmGiveUps = 0, 0
	}
}

// lockCycles reports locks that are taken in opposite orders.
func lockCycles(rs []result) []report {
	to := map[string]map[string]string{}
	for _, r := range rs {
		for e, at := range r.Edges {
			a, b, _ := strings.Cut(e, " -> ")
			if to[a] == nil {
				to[a] = map[string]string{}
			}
			to[a][b] = at
		}
	}
	var reach func(a, b string, seen map[string]bool) bool
	reach = func(a, b string, seen map[string]bool) bool {
		if a == b {
			return true
		}
		if seen[a] {
			return false
		}
		seen[a] = true
		for c := range to[a] {
			if reach(c, b, seen) {
				return true
			}
		}
		return false
	}
	var out []report
	for a, bs := range to {
		for b, at := range bs {
			if reach(b, a, map[string]bool{}) {
				out = append(out, report{"lock-order", at, fmt.Sprintf("%s is taken while %s is held, and elsewhere it is the other way round", b, a), "?"})
			}
		}
	}
	return out
}
