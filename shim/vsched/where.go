package vsched

import (
	"path/filepath"
	"regexp"
	"strings"
)

var reLoc = regexp.MustCompile(`^\t(/\S+\.go):(\d+)`)
var reFn = regexp.MustCompile(`^(\S+?)\(`)

// where names the innermost function of the code under test in a stack trace
// (function names, not lines: it has to be stable under edits).
func where(stack string) string { return Where(stack) }

// Where names the innermost frames of the code under test in a stack trace.
func Where(stack string) string {
	ls := strings.Split(stack, "\n")
	var out []string
	seenPanic := false
	for i := 0; i+1 < len(ls); i++ {
		if strings.HasPrefix(ls[i], "panic(") {
			seenPanic = true
			out = nil
			continue
		}
		m := reLoc.FindStringSubmatch(ls[i+1])
		if m == nil || !seenPanic {
			continue
		}
		d := filepath.Base(filepath.Dir(m[1]))
		switch d {
		case "vsched", "vsync", "vatomic", "runtime", "debug":
			continue
		}
		if strings.Contains(m[1], "/checker/") {
			continue
		}
		f := ls[i]
		if j := strings.LastIndexByte(f, '('); j > 0 {
			f = f[:j]
		}
		if j := strings.LastIndexByte(f, '/'); j >= 0 {
			f = f[j+1:]
		}
		out = append(out, f)
		if len(out) == 2 {
			break
		}
	}
	return strings.Join(out, " < ")
}
