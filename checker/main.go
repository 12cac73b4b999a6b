package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var checks = map[string]func(c *vctx){
	"C01": checkC01,
	"C02": checkC02,
	"C03": checkC03,
	"C12": checkC12,
	"C13": checkC13,
	"C14": checkC14,
	"C15": checkC15,
	"C16": checkC16,
	"C17": checkC17,
	"C18": checkC18,
	"C19": checkC19,
	"C20": checkC20,
	"C21": checkC21,
	"C22": checkC22,
	"C23": checkC23,
	"C25": checkC25,
	"C24": checkC24,
	"C26": checkC26,
	"C27": checkC27,
	"C04": checkC04,
	"C05": checkC05v,
	"C06": checkC06,
	"C07": checkC07,
	"C08": checkC08,
	"C09": checkC09,
	"C10": checkC10v,
	"C11": checkC11v,
}

func main() {
	dir := os.Getenv("KF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	go watchMemory(20 << 30)
	id := ""
	for _, a := range os.Args[1:] {
		if a == "--thorough" {
			tier = "thorough"
		} else {
			id = a
		}
	}
	stop := profile()
	f := checks[id]
	if f == nil {
		fmt.Println("usage: kfcheck <property> [--thorough]; properties:", sortedKeys(checks))
		os.Exit(2)
	}
	known, err := loadKnown(dir + "/known_findings.txt")
	rep := newReport(id, tier)
	if err != nil {
		rep.undecided("known findings: %v", err)
	}
	func() {
		defer func() {
			if r := recover(); r != nil && os.Getenv("KF_PANIC") == "" {
				rep.undecided("checker stopped: %v", r)
			} else if r != nil {
				panic(r)
			}
		}()
		p, err := loadProgram(false, false)
		if err != nil {
			rep.undecided("loading /repo: %v", err)
			return
		}
		base := newInterp(p, &Scenario{})
		base.initPackages()
		for u := range base.undecided {
			rep.undecided("package initialisation: %s", u)
		}
		debugHook(p)
		c := &vctx{p: p, base: base, rep: rep}
		f(c)
		c.flush()
	}()
	stop()
	os.Exit(rep.finish(dir, known))
}

func debugHook(p *Program) {
	if os.Getenv("KF_DEBUG") == "" {
		return
	}
	n := 0
	cnt := map[string]int{}
	t0 := time.Now()
	var mu sync.Mutex
	debugStates = func(st *State, b *ssa.BasicBlock, k string) {
		mu.Lock()
		defer mu.Unlock()
		n++
		nm := b.Parent().Name() + fmt.Sprint(" ", b.Index, " ", p.pos(b.Instrs[0].Pos()))
		cnt[nm]++
		if s := os.Getenv("KF_SHOW"); s == nm {
			fmt.Println(k)
			if os.Getenv("KF_TRAIL") != "" {
				fmt.Println("TRAIL")
				for _, x := range st.trail.list(80) {
					fmt.Println("  T ", x)
				}
			}
			fmt.Println()
		}
		if n%20000 == 0 {
			fmt.Println("states", n, time.Since(t0))
			best, bn := "", 0
			for k, v := range cnt {
				if v > bn {
					best, bn = k, v
				}
			}
			fmt.Println("  most:", best, bn)
			if os.Getenv("KF_TOP") != "" && n%100000 == 0 {
				for _, k := range sortedKeys(cnt) {
					fmt.Println("    ", cnt[k], k)
				}
			}
		}
	}
}
