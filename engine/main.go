package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: zkverif check PROPERTY | run HARNESS... | list")
	os.Exit(2)
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	if f := os.Getenv("ZKV_CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	root := os.Getenv("ZKV_ROOT")
	if root == "" {
		root = "/verif"
	}
	repo := os.Getenv("ZKV_REPO")
	if repo == "" {
		repo = "/repo"
	}
	specs, err := scanHarnesses(root + "/harness")
	if err != nil {
		fmt.Fprintln(os.Stderr, "zkverif:", err)
		os.Exit(2)
	}
	c := &Check{root: root, repo: repo, tier: os.Getenv("VERIF_TIER"), seed: int64(envInt("VERIF_SEED", 1))}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	switch os.Args[1] {
	case "list":
		m := map[string][]string{}
		for _, s := range specs {
			for _, p := range s.Props {
				m[p] = append(m[p], s.Rel+"."+s.Name)
			}
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k, strings.Join(m[k], " "))
		}
	case "check":
		if len(os.Args) != 3 {
			usage()
		}
		c.prop = os.Args[2]
		for _, s := range specs {
			for _, p := range s.Props {
				if p == c.prop {
					c.specs = append(c.specs, s)
				}
			}
		}
		os.Exit(c.main())
	case "run":
		c.prop = "DEV"
		c.dev = true
		for _, n := range os.Args[2:] {
			for _, s := range specs {
				if strings.Contains(s.Rel+"."+s.Name, n) {
					c.specs = append(c.specs, s)
				}
			}
		}
		rc := c.main()
		var ks []string
		for k := range qprof {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return qprof[ks[i]] > qprof[ks[j]] })
		for i, k := range ks {
			if i < 25 || !strings.HasPrefix(k, "S ") {
				fmt.Println("qprof", qprof[k], k)
			}
		}
		pprof.StopCPUProfile()
		os.Exit(rc)
	default:
		usage()
	}
}
