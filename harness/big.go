package main

import (
	"strconv"
	"strings"
)

// Cases of large expressions are kept compressed: a mark, then parts that are
// separated by \x01 and are either "=text" or "count*text".
const bigMark = "\x00big\x01"

// rep is a text repeated n times.
type rep struct {
	n int
	s string
}

func big(parts ...any) string {
	var out []string
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			out = append(out, "="+p)
		case rep:
			out = append(out, strconv.Itoa(p.n)+"*"+p.s)
		}
	}
	return bigMark + strings.Join(out, "\x01")
}

// expand returns the case that is meant.
func expand(cs string) string {
	if !strings.HasPrefix(cs, bigMark) {
		return cs
	}
	var b strings.Builder
	for _, p := range strings.Split(cs[len(bigMark):], "\x01") {
		if strings.HasPrefix(p, "=") {
			b.WriteString(p[1:])
			continue
		}
		i := strings.IndexByte(p, '*')
		n, err := strconv.Atoi(p[:i])
		chk(err)
		for ; n > 0; n-- {
			b.WriteString(p[i+1:])
		}
	}
	return b.String()
}

// caseSize is the length of the case that is meant.
func caseSize(cs string) int {
	if !strings.HasPrefix(cs, bigMark) {
		return len(cs)
	}
	size := 0
	for _, p := range strings.Split(cs[len(bigMark):], "\x01") {
		if strings.HasPrefix(p, "=") {
			size += len(p) - 1
			continue
		}
		i := strings.IndexByte(p, '*')
		n, _ := strconv.Atoi(p[:i])
		size += n * (len(p) - i - 1)
	}
	return size
}

// edges are the lengths around which buffers and counters end, up to max.
func edges(max int) (out []int) {
	for _, n := range []int{255, 256, 257, 511, 513, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2049, 4095, 4097, 8193, 10001, 16385, 32767, 32769, 65535, 65536, 65537, 70001, 131073, 300001, 1 << 20} {
		if n <= max {
			out = append(out, n)
		}
	}
	return out
}

// largeExprs emits long expressions, and deep ones up to the given depth,
// around every edge.
func largeExprs(max, depth int, units []string, nests [][2]string, emit func(string)) {
	for _, n := range edges(max) {
		for _, u := range units {
			emit(big("$", rep{n, u}, "$"))
			emit(big("x$a$", rep{n, u}, "+$z^2$"))
		}
		for _, s := range []string{"a", "é", "1", " ", "\n"} { // one long token, or blank
			emit(big("$p", rep{n, s}, `\frac{1}{y}$q`))
			emit(big(rep{n, s}, `$x\sqrt[3]{2}$y`))
		}
		emit(big("$p%", rep{n, "c"}, "\n1+\\alpha$q"))
		emit(big("$1.", rep{n, "3"}, "x$"))
		emit(big(rep{n, "$x$"}, "y"))
		emit(big(`$\frac{`, rep{n, "a "}, "}{", rep{n, `\pi `}, "}$"))
	}
	for _, n := range edges(depth) {
		for _, p := range nests {
			emit(big("$a", rep{n, p[0]}, "x", rep{n, p[1]}, "b$c"))
			emit(big("$a", rep{n, p[0]}, "x", rep{n - 1, p[1]}, "$c"))
			emit(big("$a", rep{n, p[0]}, "x", rep{n + 1, p[1]}, "b$c"))
		}
	}
}

// bufferEdges emits every pair of tokens around the places where the buffer of
// a scanner ends.
func bufferEdges(toks []string, thorough bool, emit func(string)) {
	pads := []string{"a", " ", "%", "1", "é"}
	if !thorough {
		pads = pads[:3]
	}
	for _, edge := range []int{1024, 2048, 4096} {
		if edge > 1024 && !thorough {
			continue
		}
		for _, pad := range pads {
			for d := -5; d <= 2; d++ {
				var pre []any
				switch pad {
				case "%":
					pre = []any{"$%", rep{edge + d - 3, "c"}, "\n"}
				case "é":
					pre = []any{"$", rep{(edge + d - 1) / 2, pad}}
				default:
					pre = []any{"$", rep{edge + d - 1, pad}}
				}
				for _, t := range toks {
					for _, u := range toks {
						emit(big(append(pre[:len(pre):len(pre)], t+u+"z$w")...))
					}
				}
			}
		}
	}
}
