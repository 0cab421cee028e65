package main

import (
	"os"
	"strconv"
	"strings"
)

// cx explores the scenario of the environment (for development: no property).
// VERIF_SCEN="cfg # keys # init ; threads ; after # bound # coarse(0|1)"
func cx(e *em) {
	for _, s := range strings.Split(os.Getenv("VERIF_SCEN"), "\n") {
		f := strings.Split(s, "#")
		if len(f) < 5 {
			continue
		}
		if f[0] == "growth " { // growth # cfg # ramp # order # lo # hi # max # bound # coarse # threads
			n := func(i int) int { x, _ := strconv.Atoi(strings.TrimSpace(f[i])); return x }
			e.growth(strs(strings.TrimSpace(f[1])), strs(strings.TrimSpace(f[2])), strs(strings.TrimSpace(f[3])), n(4), n(5), n(6), n(7), n(8) == 1, ckGet|ckRange|ckLen, f[9])
			continue
		}
		if f[0] == "programs " { // programs # cfg # keys # bound # inits, # a # la # b # lb
			n := func(i int) int { x, _ := strconv.Atoi(strings.TrimSpace(f[i])); return x }
			e.programs(strs(strings.TrimSpace(f[1])), strs(strings.TrimSpace(f[2])), n(3), ckConc|ckLen, strings.Split(f[4], ","), f[5], n(6), f[7], n(8))
			continue
		}
		if f[0] == "trios " { // trios # cfg # keys # bound # inits, # alphabet
			n := func(i int) int { x, _ := strconv.Atoi(strings.TrimSpace(f[i])); return x }
			e.trios(strs(strings.TrimSpace(f[1])), strs(strings.TrimSpace(f[2])), n(3), ckConc|ckLen, strings.Split(f[4], ","), f[5])
			continue
		}
		b, _ := strconv.Atoi(strings.TrimSpace(f[3]))
		e.concs(strs(strings.TrimSpace(f[0])), strs(strings.TrimSpace(f[1])), b, strings.TrimSpace(f[4]) == "1", ckConc|ckLen, f[2])
	}
}
