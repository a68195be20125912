package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// usage: vstat check ID...|all    vstat dump FUNC [t|e] [noinline...]
func main() {
	t0 := time.Now()
	repo := os.Getenv("VSTAT_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir := os.Getenv("VSTAT_DIR")
	if dir == "" {
		dir = "/verif"
	}
	if len(os.Args) < 3 {
		fmt.Println("usage: vstat check ID...|all | dump FUNC [t] [noinline...]")
		os.Exit(2)
	}
	p, err := Load(repo, filepath.Join(dir, "vstat", "sessions"))
	switch os.Args[1] {
	case "check":
		ids := os.Args[2:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		st := 0
		known := loadKnown(filepath.Join(dir, "KNOWN_FINDINGS.txt"))
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		for _, id := range ids {
			t1 := time.Now()
			if len(ids) == 1 {
				t1 = t0
			}
			r := &Run{p: p, prop: id, tier: tier, flats: map[string]*Analysis{}, rules: map[string]string{}, funcs: map[string]bool{}, known: known}
			r.rule("analysable", "the sources load and type-check and every construct a rule is anchored on is found and can be decided")
			if err == nil {
				if e := r.exec(); e != nil {
					r.ob("analysable", "check", "", false, "%v", e)
				}
			}
			if s := r.finish(dir, t1, err); s > st {
				st = s
			}
		}
		os.Exit(st)
	case "effect":
		for _, n := range os.Args[2:] {
			fmt.Println(n, p.Effect(p.Func(n)))
		}
	case "dump":
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fn := p.Func(os.Args[2])
		if fn == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		r := &Run{p: p, flats: map[string]*Analysis{}, funcs: map[string]bool{}}
		var no []string
		mode := ""
		for _, x := range os.Args[3:] {
			if len(x) <= 2 {
				mode = x
			} else {
				no = append(no, x)
			}
		}
		a := r.flat(os.Args[2], no...)
		if strings.Contains(mode, "t") {
			a.dumpTerms(strings.Contains(mode, "v"))
		} else {
			fmt.Print(a.f.dump())
		}
		fmt.Println(len(a.f.Blocks), time.Since(t0))
	}
}

func (a *Analysis) dumpTerms(all bool) {
	for _, b := range a.rpo {
		l := a.loopOf[b]
		fmt.Printf("b%d", b.ID)
		if l != nil {
			fmt.Printf(" L%d trip=%v desc=%v", l.ID, a.TripOf(l), l.Desc)
		}
		fmt.Println()
		for _, i := range b.Ins {
			switch {
			case i.Op == OpStore:
				fmt.Printf("    v%d store %v := %v  %s\n", i.ID, a.op(i, 0), a.op(i, 1), a.f.where(i))
			case i.Op == OpFieldAddr || i.Op == OpIndexAddr || i.Op == OpLoad || i.Op == OpBin || i.Op == OpConvert || i.Op == OpMakeIface || i.Op == OpField || i.Op == OpExtract || i.Op == OpUn:
				if all {
					fmt.Printf("    v%d %s = %v  %s\n", i.ID, opNames[i.Op], a.term(i), a.f.where(i))
				}
			default:
				fmt.Printf("    v%d %s = %v  %s\n", i.ID, opNames[i.Op], a.term(i), a.f.where(i))
			}
		}
		switch b.Term {
		case TIf:
			if b.Cond != nil {
				fmt.Printf("    if %v b%d b%d\n", a.at(b.Cond, b), b.Succs[0].ID, b.Succs[1].ID)
			} else {
				fmt.Printf("    spawn b%d b%d\n", b.Succs[0].ID, b.Succs[1].ID)
			}
		case TReturn:
			fmt.Print("    return")
			for _, r := range b.Rets {
				fmt.Print(" | ", a.at(r, b))
			}
			fmt.Println()
		case TJump:
			fmt.Printf("    jump b%d\n", b.Succs[0].ID)
		default:
			fmt.Println("    term", []string{"jump", "if", "return", "panic", "abort", "threadend"}[b.Term])
		}
	}
}
