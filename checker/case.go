package main

import (
	"fmt"
	"strings"

	v "verif/vsched"
)

// A Case is one execution of the code under test, described completely: running
// the same case twice in fresh processes does the same thing.
type Case struct {
	Kind    string   `json:"kind"` // seq | conc | fn
	Cfg     string   `json:"cfg,omitempty"`
	Keys    string   `json:"keys,omitempty"`
	Pre     string   `json:"pre,omitempty"`
	Ops     string   `json:"ops,omitempty"`
	Checks  int      `json:"checks,omitempty"`
	Init    string   `json:"init,omitempty"`
	Threads []string `json:"threads,omitempty"`
	After   string   `json:"after,omitempty"`
	Devs    []v.Dev  `json:"devs,omitempty"`
	Coarse  bool     `json:"coarse,omitempty"` // scheduling points at synchronisation operations only
	Fn      string   `json:"fn,omitempty"`
	N       []int64  `json:"n,omitempty"`
}

func (c *Case) String() string {
	switch c.Kind {
	case "conc":
		s := fmt.Sprintf("[%s] keys=%s init={%s} threads={%s} after={%s}", c.Cfg, c.Keys, c.Init, strings.Join(c.Threads, " | "), c.After)
		if len(c.Devs) > 0 {
			s += fmt.Sprintf(" schedule=%v", c.Devs)
		}
		return s
	case "fn":
		s := fmt.Sprintf("%s%v", c.Fn, c.N)
		if c.Cfg != "" {
			s += fmt.Sprintf(" [%s] keys=%s {%s} %s", c.Cfg, c.Keys, c.Ops, c.Pre)
		}
		return s
	}
	s := fmt.Sprintf("[%s] keys=%s", c.Cfg, c.Keys)
	if c.Pre != "" {
		s += " pre={" + c.Pre + "}"
	}
	return s + " {" + c.Ops + "}"
}

// ident names a case in the file of known findings.
func (c *Case) ident() string {
	return fmt.Sprintf("%s|%s|%s|%s|%s|%s|%s|%v|%s|%v", c.Kind, c.Cfg, c.Keys, c.Pre, c.Ops, c.Init, strings.Join(c.Threads, "/"), c.Devs, c.Fn, c.N)
}

// stats of one execution.
type stats struct {
	trans int    // operations and scheduling points passed
	state uint64 // hash of the state reached
	res   *v.Result
}

const seqLimit = 1_500_000

// conc executions: points allowed before only polling counts as a livelock
const maxPoints = 400_000

func splitCfg(s string) (out []string) {
	for _, f := range strings.Split(s, ";") {
		out = append(out, strings.TrimSpace(f))
	}
	return
}

// exec runs one case.
func exec(c *Case) (string, stats) {
	switch c.Kind {
	case "seq":
		return seqExec(c)
	case "conc":
		return concExec(c)
	case "fn":
		return fnExec(c)
	}
	panic("bad kind of case " + c.Kind)
}
