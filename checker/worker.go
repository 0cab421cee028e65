package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	v "verif/vsched"
)

// job is what the controller asks a worker to do.
type job struct {
	Prop     string
	Thorough bool
	Shard, N int
	Seconds  float64
	Known    []string // identities of known findings: skipped
	CaseFile string
	States   string // file for the hashes of the states reached
	Replay   *Case
}

// report is a worker's answer.
type report struct {
	Groups []*groupStat
	Viol   *Case
	Msg    string
	Known  []string
	Late   bool
	States int
}

var lowMem [][]byte

// pinLow keeps the objects at the lowest heap addresses alive, so that no item
// of the code under test gets an address within 64 KB of the arena's start
// (its lists treat small differences of addresses as markers).
func pinLow() {
	for i := 0; i < 64; i++ {
		for _, n := range []int{16, 32, 48, 64, 80, 96, 112, 128, 144, 192, 256, 512, 1024, 4096} {
			lowMem = append(lowMem, make([]byte, n))
		}
	}
}

func workerMain() {
	out := os.NewFile(3, "results")
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	var j job
	if err := dec.Decode(&j); err != nil {
		logf("worker: %v", err)
		os.Exit(3)
	}
	if dn, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdout = dn
	}
	debug.SetPanicOnFault(true)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(512 << 20)
	pinLow()
	v.Grow()
	var cf *os.File
	if j.CaseFile != "" {
		cf, _ = os.OpenFile(j.CaseFile, os.O_RDWR|os.O_CREATE, 0o644)
	}
	known := map[string]bool{}
	for _, k := range j.Known {
		known[k] = true
	}
	states := map[uint64]struct{}{}
	rep := report{}
	nexec := 0
	run := func(c *Case) (string, stats) {
		if cf != nil {
			b, _ := json.Marshal(c)
			var buf [8]byte
			binary.LittleEndian.PutUint64(buf[:], uint64(len(b)))
			cf.WriteAt(append(buf[:], b...), 0)
		}
		nexec++
		if nexec%300 == 0 {
			runtime.GC()
		}
		m, st := exec(c)
		states[st.state] = struct{}{}
		if m != "" {
			if known[c.ident()] {
				rep.Known = append(rep.Known, c.ident())
				m = ""
			} else {
				rep.Viol, rep.Msg = c, m
			}
		}
		return m, st
	}
	if j.Replay != nil {
		m, _ := run(j.Replay)
		rep.Msg = m
		rep.Viol = j.Replay
	} else {
		p := findProp(j.Prop)
		e := &em{prop: j.Prop, thorough: j.Thorough, shard: j.Shard, n: j.N, deadline: time.Now().Add(time.Duration(j.Seconds * float64(time.Second))), exec: run}
		p.run(e)
		e.endPart()
		rep.Groups, rep.Late = e.groups, e.late
	}
	rep.States = len(states)
	if j.States != "" {
		b := make([]byte, 0, 8*len(states))
		for s := range states {
			b = binary.LittleEndian.AppendUint64(b, s)
		}
		os.WriteFile(j.States, b, 0o644)
	}
	b, err := json.Marshal(&rep)
	if err != nil {
		logf("worker: %v", err)
		os.Exit(3)
	}
	fmt.Fprintf(out, "%s\n", b)
	os.Exit(0)
}

func findProp(id string) *prop {
	for i := range props {
		if props[i].id == id {
			return &props[i]
		}
	}
	logf("no property %s", id)
	os.Exit(3)
	return nil
}
