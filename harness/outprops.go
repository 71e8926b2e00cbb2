package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/drawtex/drawpdf"
	"github.com/go-latex/latex/mtex"
)

type causeError struct{ code int }

func (e *causeError) Error() string { return fmt.Sprintf("cause %d", e.code) }

type quietError struct{}

func (quietError) Error() string { return "" }

// The causes a destination fails with.
var causes = []error{
	&causeError{7}, io.EOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrUnexpectedEOF, syscall.EPIPE, syscall.ENOSPC,
	syscall.EINTR, syscall.EAGAIN, os.ErrClosed, context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded,
	&fs.PathError{Op: "write", Path: "p", Err: syscall.EIO}, fmt.Errorf("wrapped: %w", &causeError{8}), quietError{},
	io.ErrNoProgress, errors.ErrUnsupported,
}

func carries(err, cause error) bool { return errors.Is(err, cause) }

// faultWriter fails at one of its calls after having accepted n bytes.
type faultWriter struct {
	buf   bytes.Buffer
	sizes []int // of the calls so far
	at, n int
	err   error
	once  bool // only that call fails
	hit   int
}

func (f *faultWriter) Write(p []byte) (int, error) {
	i := len(f.sizes)
	f.sizes = append(f.sizes, len(p))
	if f.err == nil || i < f.at || i > f.at && f.once {
		f.buf.Write(p)
		return len(p), nil
	}
	f.hit++
	if i > f.at {
		return 0, f.err
	}
	n := min(f.n, len(p))
	f.buf.Write(p[:n])
	return n, f.err
}

type outPage struct {
	expr      string
	size, dpi float64
	rects     int // a page of that many rules, and no formula
}

var outPages = []outPage{
	{expr: "$x$", size: 12, dpi: 72},
	{rects: 0, size: 1, dpi: 72},
	{rects: 3, size: 8, dpi: 72},
	{expr: `$\frac{x}{\sqrt{y}}$`, size: 10, dpi: 100},
	{expr: `$\sum\alpha$`, size: 24, dpi: 150},
	{expr: `text and $f(x) = \frac{\sqrt{x +20}}{2\pi} +\hbar \sum y\partial y$`, size: 22, dpi: 300},
	{rects: 1500, size: 400, dpi: 144},
	{rects: 12000, size: 700, dpi: 150},
}

func (p outPage) canvas() (w, h float64, c *drawtex.Canvas) {
	if p.expr != "" {
		stub := &stubRenderer{}
		chk(mtex.Render(stub, p.expr, p.size, p.dpi, nil))
		return stub.w, stub.h, stub.canvas
	}
	c = drawtex.New()
	s := uint32(12345)
	next := func() float64 { // places without a pattern, so that the image does not compress
		s = s*1664525 + 1013904223
		return float64(s>>8) / (1 << 24)
	}
	for i := 0; i < p.rects; i++ {
		x, y := next()*p.size, next()*p.size
		c.RenderRectFilled(x, y, x+next()*9, y+next()*9)
	}
	return p.size / 72, p.size / 72, c
}

func imageFaults(w *Worker, cs string) {
	f := strings.Split(cs, " ")
	pi, _ := strconv.Atoi(f[0])
	ci, _ := strconv.Atoi(f[1])
	once := f[2] == "once"
	through := f[3] == "mtex"
	coarse, _ := strconv.Atoi(f[4])
	only, _ := strconv.Atoi(f[5]) // the failing call, if not all
	pg, cause := outPages[pi], causes[ci]
	if through && pg.expr == "" {
		return
	}
	pw, ph, c := pg.canvas()
	render := func(r *drawimg.Renderer) (err error) {
		if p := try(func() {
			if through {
				err = mtex.Render(r, pg.expr, pg.size, pg.dpi, nil)
			} else {
				err = r.Render(pw, ph, pg.dpi, c)
			}
		}); p != "" {
			w.Fail("%s", p)
			err = nil
		}
		w.Trans(1)
		return err
	}
	good := &faultWriter{}
	if err := render(drawimg.NewRenderer(good)); err != nil {
		w.Fail("a destination that does not fail: %v", err)
		return
	}
	want := good.buf.Bytes()
	if !bytes.HasSuffix(want, []byte("\x00\x00\x00\x00IEND\xaeB`\x82")) {
		w.Fail("the image is written without error, but is not complete (%d bytes)", len(want))
		return
	}
	for k, size := range good.sizes {
		if only >= 0 && k != only {
			continue
		}
		for n := 0; n <= size; n++ {
			if coarse > 0 && n >= coarse && n <= size-coarse && n != size/2 {
				continue
			}
			dst := &faultWriter{at: k, n: n, err: cause, once: once}
			r := drawimg.NewRenderer(dst)
			err := render(r)
			if dst.hit == 0 {
				w.Fail("write %d of %d bytes is not made again: %v instead of %v", k, size, dst.sizes, good.sizes)
				return
			}
			if err == nil {
				w.Fail("write %d of %d failed after %d of %d bytes (%v), but no error is returned", k, len(good.sizes), n, size, cause)
				return
			}
			if !carries(err, cause) {
				w.Fail("write %d failed with %#v, but the error does not carry it: %#v", k, cause, err)
				return
			}
			if !bytes.HasPrefix(want, dst.buf.Bytes()) && !once {
				w.Fail("what was written before write %d failed is not the start of the image", k)
				return
			}
			w.State(cs, fmt.Sprint(k, n))
			// the next image, with the same renderer and with another one
			dst.err = nil
			dst.buf.Reset()
			if err := render(r); err != nil || !bytes.Equal(dst.buf.Bytes(), want) {
				w.Fail("after a failure at write %d, the next image of the same renderer is not complete: %v, %d bytes, want %d", k, err, dst.buf.Len(), len(want))
				return
			}
			if n == 0 || n == size {
				next := &faultWriter{}
				if err := render(drawimg.NewRenderer(next)); err != nil || !bytes.Equal(next.buf.Bytes(), want) {
					w.Fail("after a failure at write %d, the next image is not complete: %v, %d bytes, want %d", k, err, next.buf.Len(), len(want))
					return
				}
			}
		}
	}
}

// failingRenderer fails after having looked at what it is given.
type failingRenderer struct {
	stubRenderer
	err error
	n   int
}

func (f *failingRenderer) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	f.n++
	if err := f.stubRenderer.Render(w, h, dpi, c); err != nil {
		return err
	}
	return f.err
}

func renderFaults(w *Worker, cs string) {
	k := int(cs[0] - '0')
	expr := cs[1:]
	fonts := fontSets[k%3]()
	base := &stubRenderer{}
	baseErr := mtex.Render(base, expr, 12, 72, fonts)
	for _, cause := range causes {
		r := &failingRenderer{err: cause}
		var err error
		if p := try(func() { err = mtex.Render(r, expr, 12, 72, fonts) }); p != "" {
			w.Fail("%s", p)
			return
		}
		w.Trans(1)
		if err == nil {
			w.Fail("the renderer fails with %v, but no error is returned", cause)
			return
		}
		if baseErr != nil {
			if r.n != 0 {
				w.Fail("the formula is not supported, but the renderer is called")
				return
			}
			continue
		}
		if r.n != 1 {
			w.Fail("the renderer is called %d times", r.n)
			return
		}
		if !carries(err, cause) {
			w.Fail("the renderer fails with %#v, but the error does not carry it: %#v", cause, err)
			return
		}
		next := &stubRenderer{}
		if err := mtex.Render(next, expr, 12, 72, fonts); err != nil {
			w.Fail("after a failure, the next rendering fails: %v", err)
			return
		}
		if next.w != base.w || next.h != base.h || !reflect.DeepEqual(next.canvas.Ops(), base.canvas.Ops()) {
			w.Fail("after a failure, the next rendering is another one")
			return
		}
	}
	w.State("renderer", cs)
}

var pdfDate = regexp.MustCompile(`D:\d{14}|/ID *\[[^\]]*\]`)

// pdfComplete tells what is wrong with a document.
func pdfComplete(b []byte) string {
	if !bytes.HasPrefix(b, []byte("%PDF-")) {
		return "no header"
	}
	if !bytes.HasSuffix(bytes.TrimRight(b, "\n"), []byte("%%EOF")) {
		return "no end"
	}
	i := bytes.LastIndex(b, []byte("startxref\n"))
	if i < 0 {
		return "no startxref"
	}
	var at, n int
	fmt.Sscanf(string(b[i+10:]), "%d", &at)
	if at <= 0 || at > len(b) || !bytes.HasPrefix(b[at:], []byte("xref\n0 ")) {
		return "startxref does not point to the cross references"
	}
	fmt.Sscanf(string(b[at+7:]), "%d", &n)
	e := at + bytes.Index(b[at+7:], []byte("\n")) + 8
	for k := 0; k < n; k++ {
		if e+(k+1)*20 > len(b) {
			return "short cross references"
		}
		var off int
		fmt.Sscanf(strings.TrimLeft(string(b[e+k*20:e+k*20+10]), "0"), "%d", &off)
		if k > 0 && (off >= len(b) || !bytes.HasPrefix(b[off:], []byte(fmt.Sprintf("%d 0 obj", k)))) {
			return fmt.Sprintf("object %d is not at its place", k)
		}
	}
	return ""
}

// pdfFaults writes a document to a file whose writes fail after every number
// of bytes, as told to the instrumented os package by the name of the folder.
func pdfFaults(w *Worker, cs string) {
	f := strings.Split(cs, " ")
	pi, _ := strconv.Atoi(f[0])
	pg := outPages[pi]
	pw, ph, c := pg.canvas()
	tmp, err := os.MkdirTemp("", "zzpdf")
	chk(err)
	defer os.RemoveAll(tmp)
	write := func(name string) (err error) {
		if p := try(func() { err = drawpdf.Write(name, pw*72, ph*72, c) }); p != "" {
			err = nil
			w.Fail("%s", p)
		}
		w.Trans(1)
		return err
	}
	good := filepath.Join(tmp, "good.pdf")
	if err := write(good); err != nil {
		w.Fail("a document that can be written: %v", err)
		return
	}
	want, err := os.ReadFile(good)
	if err != nil {
		w.Fail("the document is not there: %v", err)
		return
	}
	if s := pdfComplete(want); s != "" {
		w.Fail("the document is written without error, but not complete: %s", s)
		return
	}
	again := func(name, what string) bool {
		if err := write(name); err != nil {
			w.Fail("%s, the next document is not written: %v", what, err)
			return false
		}
		got, err := os.ReadFile(name)
		if err != nil || !bytes.Equal(pdfDate.ReplaceAll(got, nil), pdfDate.ReplaceAll(want, nil)) {
			w.Fail("%s, the next document is another one: %v, %d bytes, want %d", what, err, len(got), len(want))
			return false
		}
		return true
	}
	complete := func(name string) bool { return holds(name, want, pdfDate) }
	must := func(dir string, cause error, what string) bool {
		d := filepath.Join(tmp, dir)
		chk(os.MkdirAll(d, 0o755))
		err := write(filepath.Join(d, "out.pdf"))
		ok := err == nil && complete(filepath.Join(d, "out.pdf"))
		os.RemoveAll(d)
		if ok {
			return true
		}
		if err == nil {
			w.Fail("%s (%v), but no error is returned", what, cause)
			return false
		}
		if !errors.Is(err, cause) {
			w.Fail("%s, but the error does not carry %#v: %#v", what, cause, err)
			return false
		}
		w.State("pdf", dir, f[0])
		return true
	}
	switch f[1] {
	case "w":
		no, _ := strconv.Atoi(f[2])
		for n := 0; n < len(want); n++ {
			if len(want) > 3000 && n > 100 && n%97 != 0 && n < len(want)-100 {
				continue
			}
			dir := fmt.Sprintf("zzfault-w-%d-%d", n, no)
			if !must(dir, syscall.Errno(no), fmt.Sprintf("the write fails after %d of %d bytes", n, len(want))) {
				return
			}
			if n%50 == 0 && !again(filepath.Join(tmp, "next.pdf"), "after a failure") {
				return
			}
		}
	case "c", "o":
		for _, no := range []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EACCES, syscall.EROFS, syscall.EMFILE} {
			what := "closing the file fails"
			if f[1] == "o" {
				what = "opening the file fails"
			}
			if !must(fmt.Sprintf("zzfault-%s-0-%d", f[1], int(no)), no, what) {
				return
			}
			if !again(filepath.Join(tmp, "next.pdf"), "after a failure") {
				return
			}
		}
	case "p": // real failures
		bad := func(name string, cause error) bool {
			err := write(name)
			if err == nil && complete(name) {
				return true
			}
			if err == nil {
				w.Fail("%s cannot be written, but no error is returned", filepath.Base(name))
				return false
			}
			var no syscall.Errno
			if !errors.Is(err, cause) && !errors.As(err, &no) {
				w.Fail("%s cannot be written (%v), but the error is %#v", filepath.Base(name), cause, err)
				return false
			}
			w.State("pdf", filepath.Base(name), f[0])
			return true
		}
		long := filepath.Join(tmp, strings.Repeat("n", 300))
		full := fullDevice(tmp)
		if full == "" {
			full = filepath.Join(tmp, "zzfault-w-0-"+strconv.Itoa(int(syscall.ENOSPC)))
			chk(os.MkdirAll(full, 0o755))
			full = filepath.Join(full, "x.pdf")
		}
		locked := filepath.Join(tmp, "locked")
		chk(os.MkdirAll(locked, 0o755))
		chk(os.WriteFile(filepath.Join(locked, "ro.pdf"), []byte("ro"), 0o444))
		chk(os.Chmod(locked, 0o555))
		if os.Geteuid() != 0 && (!bad(filepath.Join(locked, "ro.pdf"), syscall.EACCES) || !bad(filepath.Join(locked, "new.pdf"), syscall.EACCES)) {
			return
		}
		chk(os.Chmod(locked, 0o755))
		if !bad(filepath.Join(tmp, "no", "out.pdf"), syscall.ENOENT) || !bad(filepath.Join(good, "out.pdf"), syscall.ENOTDIR) ||
			!bad(tmp, syscall.EISDIR) || !bad(full, syscall.ENOSPC) || !bad("", syscall.ENOENT) || !bad(long, syscall.ENAMETOOLONG) {
			return
		}
		// an earlier file, longer and shorter, is replaced completely
		for _, n := range []int{0, 1, len(want) - 1, len(want), len(want) + 1, 5000, 100000} {
			name := filepath.Join(tmp, "old.pdf")
			chk(os.WriteFile(name, bytes.Repeat([]byte("z"), n), 0o644))
			if !again(name, fmt.Sprintf("over a file of %d bytes", n)) {
				return
			}
		}
		dst := filepath.Join(tmp, "target.pdf")
		link := filepath.Join(tmp, "link.pdf")
		chk(os.Symlink(dst, link))
		if !again(link, "through a link") {
			return
		}
	}
}

// faultsActive tells whether the os package is the instrumented one.
func faultsActive() bool {
	d, err := os.MkdirTemp("", "zz")
	chk(err)
	defer os.RemoveAll(d)
	d = filepath.Join(d, "zzfault-w-0-28")
	chk(os.Mkdir(d, 0o755))
	f, err := os.Create(filepath.Join(d, "f"))
	if err != nil {
		return false
	}
	defer f.Close()
	_, err = f.Write([]byte("x"))
	return err != nil
}

func init() {
	log.SetOutput(io.Discard)
	register(&Check{
		id:        "C23",
		heavy:     true,
		limit:     200 * time.Second,
		rule:      "every write call of the image encoder failing after every number of accepted bytes, with every cause, once or for good, directly and through mtex.Render; the file of a document failing after every byte, at open and at close (os package instrumented by an overlay); failing renderers on every formula; after every failure the next output is compared with the complete one",
		stateRule: "state: page, failing call, bytes accepted, cause; transition: rendering or writing by the real code",
		assumptions: []string{
			"a destination that accepts less than it is given returns an error (io.Writer)",
			"faults of files are injected in the methods of os.File by an overlay of the standard library, besides real ones (/dev/full, missing folders)",
		},
		gen: func(g *Gen) {
			if !faultsActive() {
				fmt.Fprintln(os.Stderr, "zz: the os package is not instrumented")
				os.Exit(2)
			}
			g.Phase("image")
			for pi, pg := range outPages {
				coarse := 0
				if pg.rects > 100 {
					coarse = 1
				} else if pg.dpi >= 300 {
					coarse = pick(g, 4, 100)
				}
				for ci := range causes {
					if pi > 3 && ci > pick(g, 1, 3) || pi >= 5 && ci > pick(g, 0, 1) || pi == 7 && !g.thorough {
						continue
					}
					for _, mode := range []string{"once", "sticky"} {
						for _, via := range []string{"direct", "mtex"} {
							if pg.rects > 100 && via == "mtex" {
								continue
							}
							first, last := -1, -1
							if pi >= 5 {
								first, last = 0, 45
							}
							for k := first; k <= last; k++ {
								g.Emit(fmt.Sprintf("i%d %d %s %s %d %d", pi, ci, mode, via, coarse, k))
							}
						}
					}
				}
			}
			g.Phase("document")
			for pi := range outPages {
				for _, no := range []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EFBIG, syscall.EPIPE, syscall.EDQUOT} {
					if pi < 5 || no == syscall.ENOSPC {
						g.Emit(fmt.Sprintf("p%d w %d", pi, int(no)))
					}
				}
				g.Emit(fmt.Sprintf("p%d c", pi))
				g.Emit(fmt.Sprintf("p%d o", pi))
				g.Emit(fmt.Sprintf("p%d p", pi))
			}
			g.Phase("renderer")
			mgrammar([]string{"x", "+", `\sum`, "1"}).emit(pick(g, 2, 3), func(s string) {
				for k := 0; k < 3; k++ {
					g.Emit("r" + string(rune('0'+k)) + "$" + s + "$")
				}
			})
			everyMacro(false, func(s string) { g.Emit("r0" + s) })
			mscale(pick(g, 8, 30), func(s string) { g.Emit("r1" + s) })
		},
		run: func(w *Worker, cs string) {
			switch cs[0] {
			case 'i':
				imageFaults(w, cs[1:])
			case 'p':
				pdfFaults(w, cs[1:])
			case 'r':
				renderFaults(w, cs[1:])
			}
		},
	})
}

// holds tells whether a file was written completely after all, say under
// another name first.
func holds(name string, want []byte, but *regexp.Regexp) bool {
	st, err := os.Stat(name)
	if err != nil || !st.Mode().IsRegular() {
		return false
	}
	got, err := os.ReadFile(name)
	if but != nil {
		got, want = but.ReplaceAll(got, nil), but.ReplaceAll(want, nil)
	}
	return err == nil && bytes.Equal(got, want)
}

// fullDevice gives a name in the scratch folder for the device that is always
// full, if there is one: the code under test never gets the name in /dev.
func fullDevice(dir string) string {
	st, err := os.Stat("/dev/full")
	if err != nil || st.Mode()&os.ModeCharDevice == 0 {
		return ""
	}
	name := filepath.Join(dir, "full")
	if err := os.Symlink("/dev/full", name); err != nil && !errors.Is(err, os.ErrExist) {
		chk(err)
	}
	return name
}
