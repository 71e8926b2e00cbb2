package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/mtex"
)

type cmdRun struct {
	status int
	stderr string
	files  map[string][]byte
}

// runCmd runs the command in a scratch folder prepared by prep.
func runCmd(w *Worker, args []string, prep func(dir string)) (cmdRun, string, func()) {
	dir, err := os.MkdirTemp("", "zzcmd")
	chk(err)
	clean := func() {
		os.Chmod(filepath.Join(dir, "locked"), 0o755)
		os.RemoveAll(dir)
	}
	if prep != nil {
		prep(dir)
	}
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "$DIR", dir)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("ZZ_CMD"), args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	r := cmdRun{stderr: out.String()}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		r.status = ee.ExitCode()
	default:
		chk(err)
	}
	w.Trans(1)
	return r, dir, clean
}

// libImage is what the library renders with the fonts of the command.
func libImage(expr string, size, dpi float64) ([]byte, error) {
	var buf bytes.Buffer
	var err error
	if p := try(func() { err = mtex.Render(drawimg.NewRenderer(&buf), expr, size, dpi, liberation.Fonts()) }); p != "" {
		return nil, errors.New(p)
	}
	return buf.Bytes(), err
}

// fails demands a non-zero exit status and a message.
func (w *Worker) cmdFails(args []string, r cmdRun, why string) bool {
	if r.status == 0 {
		w.Fail("mtex-render %q exits with 0, but %s\n%s", args, why, firstLines(r.stderr, 8))
		return false
	}
	if r.status < 0 {
		w.Fail("mtex-render %q does not end by itself (%s)", args, why)
		return false
	}
	if strings.TrimSpace(r.stderr) == "" {
		w.Fail("mtex-render %q fails without a message (%s)", args, why)
		return false
	}
	return true
}

// cmdWrites demands that the only file written is the right image.
func (w *Worker) cmdWrites(args []string, r cmdRun, dir, out string, want []byte) bool {
	if r.status != 0 {
		w.Fail("mtex-render %q exits with %d\n%s", args, r.status, firstLines(r.stderr, 8))
		return false
	}
	name := out
	if !filepath.IsAbs(name) {
		name = filepath.Join(dir, out)
	}
	got, err := os.ReadFile(name)
	if err != nil {
		w.Fail("mtex-render %q exits with 0, but: %v", args, err)
		return false
	}
	if !bytes.Equal(got, want) {
		w.Fail("mtex-render %q writes %d bytes that are not the image of the library (%d bytes)", args, len(got), len(want))
		return false
	}
	return true
}

func only(dir string, names ...string) string {
	ok := map[string]bool{}
	for _, n := range names {
		ok[n] = true
	}
	es, err := os.ReadDir(dir)
	chk(err)
	for _, e := range es {
		if !ok[e.Name()] {
			return e.Name()
		}
	}
	return ""
}

// Forms of arguments that give the output file.
var cmdOuts = []string{
	"", "out.png", "a.png", "noext", "x.pdf", "d/e.png", "$DIR/abs.png", "sp ace é.png", "./dot.png", "old.png", "link.png", "ln", "d/../up.png", "OUT.PNG", "out.png.png", ".png",
}

func cmdExpr(w *Worker, cs string) { // FORM SIZE DPI OUT EXPR
	f := strings.SplitN(cs, " ", 5)
	oi, _ := strconv.Atoi(f[3])
	expr := f[4]
	size, dpi, out := 12.0, 72.0, "out.png"
	var args []string
	dash := func(name, val string) {
		switch f[0] {
		case "0":
			args = append(args, "-"+name, val)
		case "1":
			args = append(args, "-"+name+"="+val)
		case "2":
			args = append(args, "--"+name, val)
		case "3":
			args = append([]string{"--" + name + "=" + val}, args...)
		case "4": // given twice, the last one counts
			args = append(args, "-"+name, "7", "-"+name, val)
		}
	}
	if f[1] != "-" {
		size, _ = strconv.ParseFloat(f[1], 64)
		dash("font-size", f[1])
	}
	if f[2] != "-" {
		dpi, _ = strconv.ParseFloat(f[2], 64)
		dash("dpi", f[2])
	}
	if cmdOuts[oi] != "" {
		out = cmdOuts[oi]
		dash("o", out)
	}
	if strings.HasPrefix(expr, "-") {
		args = append(args, "--")
	}
	args = append(args, expr)
	want, lerr := libImage(expr, size, dpi)
	r, dir, clean := runCmd(w, args, func(dir string) {
		chk(os.Mkdir(filepath.Join(dir, "d"), 0o755))
		chk(os.WriteFile(filepath.Join(dir, "old.png"), bytes.Repeat([]byte("z"), 200000), 0o644))
		chk(os.Symlink("old.png", filepath.Join(dir, "ln")))
		chk(os.Symlink("target", filepath.Join(dir, "link.png")))
	})
	defer clean()
	out = strings.ReplaceAll(out, "$DIR", dir)
	w.State(f[0], f[1], f[2], f[3], fmt.Sprint(len(want)), expr)
	if lerr != nil {
		w.Count("fails")
		w.cmdFails(args, r, "the library gives the error "+lerr.Error())
		return
	}
	w.Count("written")
	if !w.cmdWrites(args, r, dir, out, want) {
		return
	}
	stray := only(dir, "d", "old.png", "ln", "link.png", "target", filepath.Base(out))
	if stray != "" {
		w.Fail("mtex-render %q leaves a file %q behind", args, stray)
		return
	}
	if cmdOuts[oi] != "old.png" && cmdOuts[oi] != "ln" {
		if b, err := os.ReadFile(filepath.Join(dir, "old.png")); err != nil || len(b) != 200000 {
			w.Fail("mtex-render %q changes another file", args)
		}
	}
}

// cmdArgs runs the command with arguments that must be refused.
func cmdArgs(w *Worker, cs string) {
	args := strings.Split(cs, "\x1f")
	if cs == "" {
		args = nil
	}
	r, _, clean := runCmd(w, args, nil)
	defer clean()
	if !w.cmdFails(args, r, "the arguments are wrong") {
		return
	}
	w.State("args", cs)
}

var cmdFaultExprs = []string{"$x$", `$\frac{x}{y}$`, `$f(x) = \frac{\sqrt{x +20}}{2\pi} +\hbar \sum y\partial y$`}

func cmdFault(w *Worker, cs string) { // KIND EXPR N ERRNO
	f := strings.Split(cs, " ")
	e, _ := strconv.Atoi(f[1])
	n, _ := strconv.Atoi(f[2])
	expr := cmdFaultExprs[e]
	want, err := libImage(expr, 12, 72)
	chk(err)
	if f[0] == "w" && n >= len(want) {
		return
	}
	sub := fmt.Sprintf("zzfault-%s-%s-%s", f[0], f[2], f[3])
	args := []string{"-o", sub + "/out.png", expr}
	r, dir, clean := runCmd(w, args, func(dir string) { chk(os.Mkdir(filepath.Join(dir, sub), 0o755)) })
	defer clean()
	if r.status == 0 && holds(filepath.Join(dir, sub, "out.png"), want, nil) {
		return
	}
	what := map[string]string{"w": "writing fails after %d bytes", "c": "closing the file fails", "o": "opening the file fails"}[f[0]]
	if f[0] == "w" {
		what = fmt.Sprintf(what, n)
	}
	if w.cmdFails(args, r, what) {
		w.State("fault", cs)
	}
}

func cmdReal(w *Worker, cs string) {
	mk := func(dir string) {
		chk(os.WriteFile(filepath.Join(dir, "file"), nil, 0o644))
		chk(os.Mkdir(filepath.Join(dir, "dir"), 0o755))
		chk(os.Symlink("nowhere/x", filepath.Join(dir, "dangling")))
		chk(os.Symlink("loop", filepath.Join(dir, "loop")))
		chk(os.Mkdir(filepath.Join(dir, "locked"), 0o755))
		chk(os.WriteFile(filepath.Join(dir, "locked", "ro.png"), []byte("ro"), 0o444))
		chk(os.Chmod(filepath.Join(dir, "locked"), 0o555))
		fullDevice(dir)
	}
	for _, e := range cmdFaultExprs {
		want, err := libImage(e, 12, 72)
		chk(err)
		want2, err := libImage(e, 12, 144)
		chk(err)
		for _, o := range []string{"full", "locked/ro.png", "locked/new.png", "no/out.png", "file/out.png", "dir", "dir/", "dangling", "loop", "", strings.Repeat("n", 300) + ".png", "$DIR"} {
			for _, form := range []int{0, 1} {
				if o == "full" && fullDevice(os.TempDir()) == "" || strings.HasPrefix(o, "locked/") && os.Geteuid() == 0 {
					continue
				}
				args := []string{"-o", o, e}
				want := want
				if form == 1 {
					args = []string{"-o=" + o, "-dpi", "144", e}
					want = want2
				}
				r, dir, clean := runCmd(w, args, mk)
				ok := r.status == 0 && o != "" && holds(filepath.Join(dir, o), want, nil)
				ok = ok || w.cmdFails(args, r, "the output cannot be written")
				clean()
				if !ok {
					return
				}
				w.State("real", o, e)
			}
		}
	}
	_ = syscall.ENOENT
}

func init() {
	register(&Check{
		id:        "C24",
		rule:      "the command itself, built from cmd/mtex-render, run in scratch folders: every formula up to a number of constructs, every macro and every malformed formula, every combination of forms of flags, sizes, resolutions and output names; all lists of up to 3 positional arguments; wrong flags; output files whose writes fail after every byte, at open and at close",
		stateRule: "state: arguments and outcome, fault; transition: run of the command",
		assumptions: []string{
			"the graphical mode (-gui) is not explored",
			"faults of files are injected in the methods of os.File by an overlay of the standard library, besides real ones (/dev/full, missing folders)",
		},
		gen: func(g *Gen) {
			if !faultsActive() || os.Getenv("ZZ_CMD") == "" {
				fmt.Fprintln(os.Stderr, "zz: the os package is not instrumented, or the command is not built")
				os.Exit(2)
			}
			g.Phase("flags")
			sizes := []string{"-", "1", "7.5", "12", "40", "0", "-3", "1e1", "0.01"}
			dpis := []string{"-", "72", "100", "250", "36.5", "0", "-72", "1e2", "0.001"}
			for form := 0; form < 5; form++ {
				for _, s := range sizes {
					for _, d := range dpis {
						for oi := range cmdOuts {
							if !g.thorough && oi > 2 && (s != "-" && d != "-") {
								continue
							}
							for ei, e := range []string{"$x$", "x", `$\frac{1}{2}+3$`, "$x"} {
								if !g.thorough && ei > 1 && form > 1 {
									continue
								}
								g.Emit(fmt.Sprintf("e%d %s %s %d %s", form, s, d, oi, e))
							}
						}
					}
				}
			}
			g.Phase("formulas")
			mgrammar([]string{"x", "+", `\sum`, "1"}).emit(pick(g, 2, 3), func(s string) { g.Emit("e0 - - 0 $" + s + "$") })
			everyMacro(g.thorough, func(s string) { g.Emit("e0 - 100 2 " + s) })
			mscale(pick(g, 6, 40), func(s string) { g.Emit("e1 9 - 1 " + s) })
			g.Phase("expressions")
			words(g, []string{"$", "x", `\`, "{", "}", "-", " ", "%", "\n", "é", "^", "\xff", "[", `\frac`}, pick(g, 3, 4), "e0 - - 0 ", "")
			for _, s := range []string{"", " ", "-", "--", "-x", "--x", "-h", "-gui", "-o", "-dpi", "$x$ -o", "$\x01$", "\ufeff$x$", "%d%s%n", "$\\text{%d}$",
				"$x%41\n$", "%78", "$x%0a$", "$x+y$", "&", "$x&amp;y$", "$HOME", "${x}$", "~", "*", "?", "@x", "'x'", "\"x\"", "`x`", "\\n", "$\\x41$", "$\\u0041$", "x;y", "<x>", "|", "!x", "#x", "x\n", "\nx", "\t", " $x$ ", "$x$\n", "\ufb01", "e\u0301", "\u00c5", "\u212b", "$\u212b$", "$-$", "/dev/stdin", "-1", "--1"} {
				g.Emit("e0 - - 0 " + s)
			}
			for _, n := range []int{100, 1000, pick(g, 3000, 30000)} {
				g.Emit("e0 - 20 0 " + strings.Repeat("x", n))
				g.Emit("e0 - 20 0 $" + strings.Repeat("+x", n) + "$")
			}
			g.Phase("arguments")
			g.Emit("a")
			pos := []string{"$x$", "y", "", "-o", "a.png", "-", "-gui"}
			var lists func(l []string, n int)
			lists = func(l []string, n int) {
				if len(l) > 1 {
					for _, pre := range []string{"", "-o\x1fb.png\x1f", "-dpi=100\x1f", "--\x1f"} {
						if pre != "" || !strings.HasPrefix(l[0], "-") || l[0] == "-" {
							if pre != "" && pre != "--\x1f" && strings.HasPrefix(l[0], "-") && l[0] != "-" {
								continue
							}
							g.Emit("a" + pre + strings.Join(l, "\x1f"))
						}
					}
				}
				if n > 0 {
					for _, p := range pos {
						lists(append(l[:len(l):len(l)], p), n-1)
					}
				}
			}
			lists(nil, pick(g, 3, 4))
			for _, s := range []string{
				"-dpi\x1f72", "-o\x1fx.png", "-font-size=3", "--", "-dpi", "-o", "-font-size", "-dpi\x1fabc\x1fx", "-dpi=\x1fx", "-font-size\x1f1,5\x1fx", "-font-size\x1f\x1fx",
				"-unknown\x1fx", "-d\x1f72\x1fx", "-size\x1f3\x1fx", "---dpi\x1f3\x1fx", "-=3\x1fx", "-dpi=1e999\x1fx", "-font-size=12pt\x1fx", "-gui=maybe\x1fx", "-dpi\x1f0x\x1fx", "$x$\x1f-dpi\x1f72", "$x$\x1f-o\x1fy.png", "$x$\x1f$y$",
			} {
				g.Emit("a" + s)
			}
			g.Phase("faults")
			for e := range cmdFaultExprs {
				n := pick(g, 500, 6000)
				for i := 0; i < n; i++ {
					if e == 2 && !g.thorough && i%5 != 0 {
						continue
					}
					g.Emit(fmt.Sprintf("fw %d %d %d", e, i, int(syscall.ENOSPC)))
				}
				for i := 0; i < 40; i++ {
					g.Emit(fmt.Sprintf("fw %d %d %d", e, i*4, int(syscall.EIO)))
				}
				for _, k := range []string{"c", "o"} {
					for _, no := range []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EACCES, syscall.EROFS, syscall.EMFILE} {
						g.Emit(fmt.Sprintf("f%s %d 0 %d", k, e, int(no)))
					}
				}
			}
			g.Emit("r")
		},
		run: func(w *Worker, cs string) {
			switch cs[0] {
			case 'e':
				cmdExpr(w, cs[1:])
			case 'a':
				cmdArgs(w, cs[1:])
			case 'f':
				cmdFault(w, cs[1:])
			case 'r':
				cmdReal(w, cs[1:])
			}
		},
	})
}
