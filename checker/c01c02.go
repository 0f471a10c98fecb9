package main

import "golang.org/x/tools/go/ssa"

func init() {
	register(&Check{
		Prop: "C01",
		Explain: "Path-sensitive error-flow analysis over SSA. Every function of the index, map, codec and index-building packages is a root; every call in it that can report a failure is an obligation: " +
			"on each abstract path on which that call fails, the root must end with a non-nil error (or an error-carrying object), or the failure must be recorded in a place some function returns; " +
			"only 'key not found' and 'end of input' may be absorbed. An iterator that ended must be asked for its error.",
		Assume: []string{
			"a function outside the repository reports failure through its error result only",
			"loops and recursion are explored to a fixed point over abstract states (nil, non-nil, constants), goroutine bodies as if run at their go statement",
			"failures of Close methods are the subject of C03 and C04",
		},
		Floors: map[string]int{"index-errors": 110},
		Run: func(c *Ctx) {
			core := inPkgs(c.W, "internal/triplestore/igraph", "internal/triplestore/imap", "internal/triplestore/impl", "pkg/sgob")
			errFlow(c, "index-errors", core, nil)
			sp := inPkgs(c.W, "internal/sparkl")
			errFlow(c, "index-errors", func(fn *ssa.Function) bool { return sp(fn) && !cacheAccessor(fn) }, dataCallee)
		},
	})
	register(&Check{
		Prop: "C02",
		Explain: "Path-sensitive error-flow analysis over SSA. Every function (and every goroutine body) of the extraction, storage, exporter, import/export and command packages is a root; on each abstract path on which a call in it fails, " +
			"the root must return a non-nil error, hand the failure to an error slot that some function returns, or end the process with a non-zero status. Logging a failure is not reporting it. " +
			"failures-collected: an error that workers record in a place they share is read, and returned, only when no worker may still write it, given the waits on the path and the locks held.",
		Assume: []string{
			"a function outside the repository reports failure through its error result only",
			"loops and recursion are explored to a fixed point over abstract states (nil, non-nil, constants), goroutine bodies as if run at their go statement",
			"failures of Close methods are the subject of C03 and C04; the error of the http server after serving began is not a failure of the run",
		},
		Floors: map[string]int{"run-errors": 90, "run-errors.recorded": 1, "failures-collected": 2},
		Run: func(c *Ctx) {
			in := inPkgs(c.W, "internal/sparkl", "internal/sparkl/storages", "internal/sparkl/exporter", "internal/glass", "internal/wisski", "pkg/sgob", "internal/stats", "", "cmd/n2j", "cmd/hangover")
			errFlow(c, "run-errors", func(fn *ssa.Function) bool { return in(fn) && !cacheAccessor(fn) }, nil)
			captured(c, newConcWorld(c.W), "failures-collected", errorSlot)
		},
	})
}
