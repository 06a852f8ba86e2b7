package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// findLengthFns looks for functions which compute the encoded length of an
// integer, whatever their name and form: on every outcome of their body the
// result is the length of the class of the argument. Calls to them are then
// replaced by that length.
func (x *X) findLengthFns(base *State) {
	for fn := range ssautil.AllFunctions(x.prog) {
		if !x.ownFn(fn) || isHarness(fn) || isModel(fn) || fn.Blocks == nil || fn.Parent() != nil || len(fn.FreeVars) > 0 {
			continue
		}
		sig := fn.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			continue
		}
		p, ok1 := sig.Params().At(0).Type().Underlying().(*types.Basic)
		r, ok2 := sig.Results().At(0).Type().Underlying().(*types.Basic)
		if !ok1 || !ok2 || p.Kind() != types.Uint64 || r.Kind() != types.Int {
			continue
		}
		simple := true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i.(type) {
				case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef, *ssa.UnOp:
				default:
					simple = false
				}
			}
		}
		if simple && x.isLengthFn(base, fn) {
			lengthFns[fn] = true
		}
	}
}

var lengthFns = map[*ssa.Function]bool{}

func (x *X) isLengthFn(base *State, fn *ssa.Function) (ok bool) {
	var buf []report
	saved := x.buf
	x.buf = &buf
	raw := x.raw
	x.raw = true
	defer func() {
		x.buf = saved
		x.raw = raw
		if e := recover(); e != nil {
			if x.trace2 {
				fmt.Println("LENGTH", fn, e)
			}
			ok = false
		}
	}()
	v := S(newSym("v", 0, 0, true, false))
	outs := x.call(base.clone(), fn, []Val{IntV{v}}, nil, false)
	if x.trace2 {
		fmt.Println("LENGTH", fn, len(outs), buf)
	}
	for _, o := range outs {
		if o.pan != nil {
			return false
		}
		n, isI := o.ret.(IntV)
		if x.trace2 && isI {
			fmt.Println("LENGTH", fn, n.e, x.vlen(o, v))
			for _, f := range o.facts.ge {
				fmt.Println("   fact", f)
			}
		}
		if !isI || !o.facts.same(n.e, x.vlen(o, v)) {
			return false
		}
	}
	return len(outs) > 0 && len(buf) == 0
}

func sumLength(x *X, s *State, c *callCtx) []*State {
	v, ok := c.args[0].(IntV)
	if !ok {
		x.giveUp("argument of a length function")
	}
	return ret(s, IntV{x.vlen(s, v.e)})
}
