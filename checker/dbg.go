package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// debugTrace names a function whose interpretation is printed
var debugTrace = os.Getenv("HOVERCHECK_TRACE")

func (s *State) traceInstr(instr ssa.Instruction) {
	f := s.top()
	var ops []string
	for _, op := range instr.Operands(nil) {
		if *op == nil {
			continue
		}
		if v, ok := f.env[*op]; ok {
			ops = append(ops, (*op).Name()+"="+v.String())
		}
	}
	name := ""
	if v, ok := instr.(ssa.Value); ok {
		name = v.Name() + " = "
	}
	fmt.Fprintf(os.Stderr, "%s b%d s%d %s%s   {%s}\n", f.id, f.block.Index, f.stage, name, instr, strings.Join(ops, " "))
}

// debugSteps reports how much work an exploration was (HOVERCHECK_STEPS=min)
func (e *Engine) debugSteps(fn *ssa.Function) {
	if debugMin > 0 && e.Steps >= debugMin {
		fmt.Fprintf(os.Stderr, "STEPS %8d of %d %T %s\n", e.Steps, e.Max, e.C, fname(fn))
	}
}

var debugMin, _ = strconv.Atoi(os.Getenv("HOVERCHECK_STEPS"))
