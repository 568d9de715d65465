package main

import "golang.org/x/tools/go/ssa"

// mergePlan turns a branch over side-effect-free blocks into a conditional value.
type mergePlan struct{}

func planMerge(c *cfunc, in *ssa.If) *mergePlan { return nil }

func (m *mergePlan) try(fr *frame, cond Value) (int, bool) { return 0, false }
