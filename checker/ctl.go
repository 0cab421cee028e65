package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// hangTime is how long a worker may spend on one case before it is taken for
// hanging (cases take milliseconds; endless loops of instrumented code end by
// their step budget, not by this).
const hangTime = 100 * time.Second

type outcome struct {
	rep   *report
	crash string // how the process died
	c     *Case  // the case it was executing
	hung  bool
}

func readCase(f string) *Case {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if n > uint64(len(b)-8) {
		return nil
	}
	var c Case
	if json.Unmarshal(b[8:8+n], &c) != nil {
		return nil
	}
	return &c
}

// spawn runs one job in a fresh process. cancel ends it early.
func spawn(j job, dir string, cancel <-chan struct{}) (o outcome) {
	j.CaseFile = filepath.Join(dir, fmt.Sprintf("case-%d-%d", j.Shard, time.Now().UnixNano()))
	defer os.Remove(j.CaseFile)
	in, _ := json.Marshal(&j)
	cmd := osexec.Command(os.Args[0], "worker")
	cmd.Stdin = bytes.NewReader(in)
	var stderr tailBuf
	cmd.Stderr = &stderr
	r, w, err := os.Pipe()
	if err != nil {
		return outcome{crash: err.Error()}
	}
	cmd.ExtraFiles = []*os.File{w}
	cmd.Env = append(os.Environ(), "GODEBUG=invalidptr=0,clobberfree=1,asyncpreemptoff=1", "GOMAXPROCS=2", "GOTRACEBACK=all")
	if err := cmd.Start(); err != nil {
		return outcome{crash: err.Error()}
	}
	w.Close()
	done := make(chan struct{})
	hung := make(chan bool, 1)
	go func() { // watch for a case that never ends
		var last string
		at := time.Now()
		for {
			select {
			case <-done:
				hung <- false
				return
			case <-cancel:
				cmd.Process.Kill()
				hung <- false
				return
			case <-time.After(2 * time.Second):
			}
			b, _ := os.ReadFile(j.CaseFile)
			if s := string(b); s != last {
				last, at = s, time.Now()
			} else if time.Since(at) > hangTime {
				cmd.Process.Kill()
				hung <- true
				return
			}
		}
	}()
	var buf bytes.Buffer
	buf.ReadFrom(r)
	err = cmd.Wait()
	close(done)
	o.hung = <-hung
	if err == nil {
		var rep report
		if e := json.Unmarshal(buf.Bytes(), &rep); e != nil {
			o.crash = "no report: " + e.Error()
		} else {
			o.rep = &rep
			return
		}
	} else {
		o.crash = err.Error()
	}
	o.c = readCase(j.CaseFile)
	if o.hung {
		o.crash = "no termination"
		return
	}
	o.crash = crashMsg(stderr.String(), o.crash)
	return
}

// tailBuf keeps the head of what is written (where the runtime says why it died).
type tailBuf struct {
	mu   sync.Mutex
	last []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.last = append(t.last, p...)
	if len(t.last) > 1<<20 {
		t.last = append([]byte(nil), t.last[len(t.last)-1<<19:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.last) }

func crashMsg(s, dflt string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "runtime: ") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "worker: ") {
			if len(l) > 200 {
				l = l[:200]
			}
			return "the process died: " + l
		}
	}
	return "the process died: " + dflt
}

// verdict of one case run in a fresh process: a message when it fails.
func runOnce(c *Case, dir string) string {
	o := spawn(job{Replay: c}, dir, nil)
	if o.rep == nil {
		return o.crash
	}
	return o.rep.Msg
}

func isOOM(s string) bool {
	return strings.Contains(s, "killed") || strings.Contains(s, "out of memory")
}

func envInt(n string, d int) int {
	if x, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return x
	}
	return d
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

// ctlMain runs the check of one property.
func ctlMain(id, tier, verif string) int {
	start := time.Now()
	findProp(id)
	dir, err := os.MkdirTemp("", "vchk")
	if err != nil {
		logf("%v", err)
		return 3
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	n = envInt("VERIF_JOBS", n)
	secs := float64(envInt("VERIF_QUICK_SECONDS", 420))
	if tier == "thorough" {
		secs = float64(envInt("VERIF_SECONDS", 780))
	}
	kf := loadKnown(filepath.Join(verif, "known-findings.txt"), id)
	outs := make([]outcome, n)
	cancel := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	mkJob := func(i int) job {
		return job{Prop: id, Thorough: tier == "thorough", Shard: i, N: n, Seconds: secs, Known: kf.ids(), States: filepath.Join(dir, fmt.Sprintf("states-%d", i))}
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = spawn(mkJob(i), dir, cancel)
			if o := outs[i]; o.rep == nil && o.c != nil || o.rep != nil && o.rep.Viol != nil {
				once.Do(func() { close(cancel) })
			}
		}(i)
	}
	wg.Wait()
	code := 0
	viol := 0
	var unrepro []string
	cancelled := false
	select {
	case <-cancel:
		cancelled = true
	default:
	}
	reported := false
	for i := range outs {
		o := &outs[i]
		var c *Case
		msg := ""
		switch {
		case o.rep != nil && o.rep.Viol != nil:
			c, msg = o.rep.Viol, o.rep.Msg
		case o.rep == nil && o.c != nil && !(cancelled && isOOM(o.crash) && !o.hung):
			c, msg = o.c, o.crash
		case o.rep == nil && !cancelled:
			logf("shard %d: %s", i, o.crash)
			code = 3
		}
		if c == nil || reported {
			continue
		}
		ok, m := confirm(c, msg, mkJob(i), dir)
		if m != "" {
			msg = m
		}
		if !ok {
			unrepro = append(unrepro, c.String()+": "+msg)
			logf("not reproducible, not reported: %s: %s", c.String(), msg)
			continue
		}
		if kf.has(c.ident()) {
			continue
		}
		reported = true
		viol++
		rp := filepath.Join(verif, "evidence", "replay-"+id+".json")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "message": msg, "case": c, "text": c.String(),
			"how": "./run.sh replay " + rp}, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		fmt.Printf("  %s\n  %s\n", msg, c.String())
		code = 1
	}
	// coverage
	groups := map[string]*groupStat{}
	var names []string
	cases, trans := 0, 0
	late := false
	states := map[uint64]struct{}{}
	dist := 0
	for i := range outs {
		o := &outs[i]
		if o.rep == nil {
			late = true
			continue
		}
		late = late || o.rep.Late
		for _, g := range o.rep.Groups {
			t := groups[g.Name]
			if t == nil {
				t = &groupStat{Name: g.Name, Complete: true}
				groups[g.Name] = t
				names = append(names, g.Name)
			}
			t.Cases += g.Cases
			t.Trans += g.Trans
			t.Complete = t.Complete && g.Complete
			if t.Sample == "" {
				t.Sample = g.Sample
			}
			cases += g.Cases
			trans += g.Trans
		}
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("states-%d", i)))
		for k := 0; k+8 <= len(b); k += 8 {
			states[binary.LittleEndian.Uint64(b[k:])] = struct{}{}
		}
	}
	dist = len(states)
	for _, k := range kf.list {
		rep := false
		for i := range outs {
			if outs[i].rep != nil {
				for _, s := range outs[i].rep.Known {
					rep = rep || s == k.id
				}
			}
		}
		if rep {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
		}
	}
	var parts []interface{}
	var samples []interface{}
	for _, nm := range names {
		g := groups[nm]
		parts = append(parts, map[string]interface{}{"bounds": g.Name, "executions": g.Cases, "transitions": g.Trans, "complete": g.Complete})
		if len(samples) < 6 && g.Sample != "" {
			samples = append(samples, g.Sample)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev := evidence{Property: id, Tier: tier, Seed: envInt("VERIF_SEED", 1), Level: "model_checking", Violations: viol, WallS: time.Since(start).Seconds(),
		Coverage: map[string]interface{}{
			"states": dist, "transitions": trans, "traces_validated_against_impl": cases, "samples": samples,
			"exhaustive": !late && viol == 0 && code == 0 && len(unrepro) == 0, "parts": parts,
			"explanation":  "Every execution runs the real code of /repo's working tree (instrumented copy). states: distinct states reached (the linked structure together with the reference model, or the history observed); transitions: operations and scheduling points executed; traces_validated_against_impl: complete executions, each compared with the reference model. parts lists the enumerated spaces and whether each was completed.",
			"unreproduced": unrepro,
		},
		Assumptions: []string{
			"runtime.memhash is replaced by a deterministic function whose value the key chooses, so that every placement of keys can be enumerated",
			"sequentially consistent memory; threads switch at statement boundaries that touch shared memory (or at synchronisation operations, where the part says so)",
		}}
	b, _ := json.MarshalIndent(&ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d executions, %d transitions, %d states, %d parts, exhaustive=%v, %.1fs\n", id, tier, cases, trans, dist, len(names), ev.Coverage["exhaustive"], ev.WallS)
	return code
}

// confirm re-runs a failing case five times in fresh processes. A case that does
// not fail there may depend on what ran before it in its worker (the placement of
// objects in memory): then the whole job must fail again.
func confirm(c *Case, msg string, j job, dir string) (bool, string) {
	fails := 0
	m := ""
	for i := 0; i < 5; i++ {
		if s := runOnce(c, dir); s != "" {
			fails++
			m = s
		} else if i == 1 && fails == 0 {
			break
		}
	}
	if fails == 5 {
		return true, m
	}
	for i := 0; i < 2; i++ {
		o := spawn(j, dir, nil)
		if !(o.rep != nil && o.rep.Viol != nil || o.rep == nil && o.c != nil) {
			return false, ""
		}
	}
	return true, ""
}

// ---- known findings -----------------------------------------------------

type knownList struct{ list []knownFinding }
type knownFinding struct{ id, text string }

// loadKnown reads lines "open: property=<id> case=<identity> :: <text>".
// Lines "fixed: ..." suppress nothing.
func loadKnown(f, prop string) (k knownList) {
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "open: property="+prop+" case=") {
			continue
		}
		l = strings.TrimPrefix(l, "open: property="+prop+" case=")
		p := strings.SplitN(l, " :: ", 2)
		if len(p) == 2 {
			k.list = append(k.list, knownFinding{p[0], p[1]})
		}
	}
	return
}
func (k knownList) ids() (out []string) {
	for _, x := range k.list {
		out = append(out, x.id)
	}
	return
}
func (k knownList) has(id string) bool {
	for _, x := range k.list {
		if x.id == id {
			return true
		}
	}
	return false
}
