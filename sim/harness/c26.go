//go:build go1.25

package harness

import (
	"encoding/json"
	"fmt"
	"strings"
	"syscall"

	"verif.local/sim/kern"
)

// failure is what --json prints.
type failure struct {
	Filename string `json:"filename"`
	Line     int    `json:"line"`
	Column   int    `json:"column"`
	LintID   string `json:"lint_id"`
	Message  string `json:"message"`
}

// render gives the line for a failure in an error format.
func (f failure) render(format string) string {
	if f.Filename == "" {
		f.Filename = "<input>"
	}
	var parts []string
	for _, x := range strings.Split(format, ":") {
		switch x {
		case "filename":
			parts = append(parts, f.Filename)
		case "line":
			parts = append(parts, fmt.Sprint(max(f.Line, 1)))
		case "column":
			parts = append(parts, fmt.Sprint(max(f.Column, 1)))
		case "id":
			if f.LintID != "" {
				parts = append(parts, f.LintID)
			}
		case "message":
			if f.Message != "" {
				parts = append(parts, f.Message)
			}
		}
	}
	return strings.Join(parts, ":")
}

func init() {
	register("C26", "forms", 1, func(c *Ctx) {
		g := c.Rig(LoadOpts{Except: []string{"create", "create-pkg", "create-nodir", "init", "init-dir", "init-doc", "version", "version-json", "help"},
			Proj: &ProjOpts{Errors: []float64{0, 0.1, 0.4}[c.N("errors", 3)], Unformatted: 0.4, LintFail: []float64{0, 0.4}[c.N("lintfail", 2)], Excludes: true, Silent: true, MaxDirs: 5, MaxFiles: 3, Plugins: 3, Rich: c.P("rich", 0.6)}})
		l := g.L
		forms := reports[l.Name]
		var args []string
		for _, a := range l.Args {
			if a == "--debug" || forms && (a == "--json" || strings.HasPrefix(a, "--error-format")) {
				continue
			}
			args = append(args, a)
		}
		run := func(name string, o RunOpts, more ...string) (outcome, *Sim, *Run) {
			s := g.Machine(name, Quiet(brisk(c, name)))
			l.Args = append(append([]string(nil), args...), more...)
			r := l.Do(s, o)
			return g.outcome(s, r), s, r
		}
		var base []string
		if forms {
			base = []string{"--json"}
		}
		a, sa, ra := run("a", RunOpts{}, base...)
		da := ra.Desc()
		cmds := commands(sa, ra)
		var form []string
		format := "filename:line:column:message"
		if forms {
			switch k := c.N("form", 5); {
			case k == 0:
				form = base
			case k > 1 && !strings.HasPrefix(l.Name, "break"):
				format = c.Pick("format", "filename:line:column:id:message", "message", "id:message:filename", "line:filename", "column:id:line:message", "filename", "message:column:id:line:filename")
				form = []string{"--error-format=" + format}
			}
		}
		o := RunOpts{}
		if c.P("debug", 0.4) {
			form = append(form, "--debug")
			c.Hit("c26.debug")
		}
		switch c.N("stderr", 3) {
		case 0:
			o.Stderr = &kern.Sink{Limit: []int{0, 0, 10, 100, 1000}[c.N("limit", 5)], Fail: []syscall.Errno{syscall.ENOSPC, syscall.EIO}[c.N("errno", 2)]}
		}
		b, sb, rb := run("b", o, form...)
		if o.Stderr != nil && o.Stderr.Lost {
			c.Hit("c26.stderr_failed")
		}
		c.Sample("prototool %s / %s", strings.Join(base, " "), strings.Join(rb.Args, " "))
		if forms && !contains(form, "--json") {
			var out strings.Builder
			for _, line := range strings.SplitAfter(a.out, "\n") {
				var f failure
				if !strings.HasPrefix(line, "{") || json.Unmarshal([]byte(line), &f) != nil {
					out.WriteString(line)
					continue
				}
				as := format
				if strings.HasPrefix(l.Name, "break") && f.LintID != "" {
					as = "message" // they belong to no file
				}
				out.WriteString(f.render(as) + "\n")
				c.Hit("c26.failures")
			}
			a.out = out.String()
		}
		if d := a.diff(b); d != "" {
			c.Violate("C26.differs", "%s; %s and %s", d, da, rb.Desc())
			return
		}
		if x, y := firstDiff(cmds, commands(sb, rb)); x != "" || y != "" {
			c.Violate("C26.differs", "other protoc commands: %s / %s; %s and %s", clip(x, 300), clip(y, 300), da, rb.Desc())
			return
		}
		if a.code == 0 {
			c.Hit("c26.ok")
		}
	})
}
