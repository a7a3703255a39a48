package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// With -cov FILE the source lines of the repository's functions that some path
// entered ("+") and that none did ("-") are written to FILE.

var (
	covFile  string
	covMu    sync.Mutex
	covLines = map[string]bool{}
)

func covNote(cf *CF) {
	if covFile == "" {
		return
	}
	covMu.Lock()
	defer covMu.Unlock()
	fset := cf.fn.Prog.Fset
	for _, b := range cf.blks {
		// a block without side effects may have been merged into its neighbour
		seen := b.seen || b.pure && len(b.preds) == 1 && b.preds[0].seen
		for _, ci := range b.ins {
			v, ok := ci.ins.(ssa.Instruction)
			if !ok || !v.Pos().IsValid() {
				continue
			}
			p := fset.Position(v.Pos())
			k := fmt.Sprintf("%s:%d", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
			covLines[k] = covLines[k] || seen
		}
	}
}

func covWrite() {
	if covFile == "" {
		return
	}
	var out []string
	for k, s := range covLines {
		c := "-"
		if s {
			c = "+"
		}
		out = append(out, c+" "+k)
	}
	sort.Strings(out)
	os.WriteFile(covFile, []byte(strings.Join(out, "\n")+"\n"), 0644)
}
