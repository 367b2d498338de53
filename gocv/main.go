package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func repoDir() string {
	if d := os.Getenv("GOCV_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("GOCV_VERIF"); d != "" {
		return d
	}
	e, err := os.Executable()
	if err == nil {
		d := filepath.Dir(e)
		for i := 0; i < 3; i++ {
			if _, err := os.Stat(filepath.Join(d, "contracts")); err == nil {
				return d
			}
			d = filepath.Dir(d)
		}
	}
	return "/verif"
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv verify|list|check|worker ...")
		os.Exit(2)
	}
	if pf := os.Getenv("GOCV_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		conf := "default"
		if len(os.Args) > 2 {
			conf = os.Args[2]
		}
		cmdWorker([]string{conf})
	case "list":
		prog, err := Load(repoDir(), "")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		specs, err := LoadSpecs(filepath.Join(verifDir(), "contracts"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var ks []string
		for k := range prog.Funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m := " "
			if s := specs.ByKey[k]; s != nil {
				m = "*"
				if s.Trusted != "" {
					m = "T"
				}
				if s.Inline {
					m = "i"
				}
			}
			if len(os.Args) > 2 && !strings.Contains(k, os.Args[2]) {
				continue
			}
			fmt.Println(m, k)
		}
	}
}

func cmdVerify(args []string) {
	verbose := 0
	for len(args) > 0 && strings.HasPrefix(args[0], "-") {
		switch args[0] {
		case "-v":
			verbose = 1
		case "-vv":
			verbose = 2
		case "-t":
			trace++
		}
		args = args[1:]
	}
	prog, specs, err := loadAll(os.Getenv("GOCV_CONF"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var keys []string
	for _, a := range args {
		if strings.HasSuffix(a, "*") {
			for _, k := range specs.Order {
				if strings.HasPrefix(k, strings.TrimSuffix(a, "*")) {
					keys = append(keys, k)
				}
			}
			continue
		}
		keys = append(keys, a)
	}
	bad := 0
	for _, k := range keys {
		if s := specs.ByKey[k]; s != nil && (s.Trusted != "" || s.Inline || s.Bounded != "" && len(keys) > 1) {
			continue
		}
		t0 := time.Now()
		r := VerifyFn(prog, specs, k, solverMillis)
		ok := 0
		for _, o := range r.Obs {
			if o.Status == "proved" {
				ok++
			}
		}
		st := "OK  "
		if ok != len(r.Obs) {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%s %s  %d/%d (+%d trivial) rets=%d %.2fs\n", st, k, ok, len(r.Obs), r.Trivial, r.Returns, time.Since(t0).Seconds())
		for _, o := range r.Obs {
			if o.Status == "proved" && verbose == 0 {
				continue
			}
			if o.Status != "proved" || verbose > 1 {
				fmt.Printf("    %s %s [%s] %s %s\n", o.Status, o.Name, o.Pos, o.Backend, o.Detail)
				if verbose > 0 {
					for _, f := range o.Facts {
						fmt.Println("        |", f)
					}
					fmt.Println("        =>", o.Goal)
					if o.Status != "proved" {
						fmt.Println("        model", o.Model)
					}
				}
			}
		}
	}
	fmt.Printf("%d functions, %d failing; queries=%d solver=%v\n", len(keys), bad, statQueries, statTime)
	if bad > 0 && os.Getenv("GOCV_PROF") == "" {
		os.Exit(1)
	}
}
