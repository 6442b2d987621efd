//gosx:pkg . support/coverage
package coverage

import (
	"strconv"
	"strings"
)

// svBlock is a block of a profile as the go command writes it.
func svBlock(i int) string {
	return []string{
		"example.com/m/a.go:1.2,3.4 2",
		"example.com/m/a.go:1.2,3.4 3",
		"example.com/m/a b.go:10.2,13.24 1",
		"example.com/m/p/a.go:1.2,3.4 2",
	}[i]
}

const svBlocks = 4

// SV_merge: merging profiles gives each block of any of them once, with the
// sum of its counts, in the order of their first lines, and no other line.
//
//gosx:bounds 1-3 profiles of 0-3 lines (together up to 3, thorough 4) out of 3 blocks, with symbolic counts of 1 digit; with or without a mode line, also again before the last line as after appending one profile to another, blank lines, no last newline, \r\n
//gosx:budget quick=30s thorough=300s
func SV_merge() {
	nProf := 1 + svChoose("profiles", 3)
	left := 3 + svTier()
	style := svChoose("style", 5)
	nl := "\n"
	if style == 3 {
		nl = "\r\n"
	}
	var order []string
	sum := map[string]int64{}
	var covs [][]*CovLine
	for p := 0; p < nProf; p++ {
		n := svChoose("lines", 4)
		if n > left {
			return
		}
		left -= n
		text := "mode: count" + nl
		if style == 4 {
			text = ""
		}
		for j := 0; j < n; j++ {
			b := svBlock(svChoose("block", 3))
			d := svStrIn("count", 1, "0123456789")
			c := int64(0)
			for k := 0; k < len(d); k++ {
				c = c*10 + int64(d[k]-'0')
			}
			if _, ok := sum[b]; !ok {
				order = append(order, b)
			}
			sum[b] += c
			if style == 1 && j == n-1 {
				text += "mode: count" + nl
			}
			if style == 2 {
				text += nl
			}
			text += b + " " + d + nl
		}
		if style == 0 {
			text = strings.TrimSuffix(text, nl)
		}
		mode, lines := Parse(text)
		svAssert(mode == "count" || style == 4 && mode == "", "the mode is lost")
		svAssert(len(lines) == n, "a profile has other lines than its blocks")
		covs = append(covs, lines)
	}
	res := Merge(covs...)
	svAssert(len(res) == len(order), "the merged profile has other blocks")
	for i, l := range res {
		svAssert(l.Prefix == order[i], "the merged profile has another block")
		svAssert(l.Count == sum[order[i]], "the count of a block is not the sum")
	}
	svReach("merged")
}

// SV_format: the text of a profile has its mode and each of its blocks, and
// reads as the same.
//
//gosx:bounds 0-2 blocks with counts of 0-19
//gosx:budget quick=10s thorough=30s
func SV_format() {
	var lines []*CovLine
	n := svChoose("n", 3)
	for i := 0; i < n; i++ {
		lines = append(lines, &CovLine{Prefix: svBlock(svChoose("block", svBlocks)), Count: int64(svInt("count", 0, 19))})
	}
	mode := []string{"set", "count", "atomic"}[n]
	text := Format(mode, lines)
	svAssert(strings.HasPrefix(text, "mode: "+mode+"\n") || n == 0 && text == "mode: "+mode, "the mode is not the first line")
	svAssert(strings.Count(text, "\n") == n, "the text has other lines")
	m, again := Parse(text)
	svAssert(m == mode && len(again) == n, "the text has other blocks")
	for i, l := range again {
		svAssert(l.Prefix == lines[i].Prefix && l.Count == lines[i].Count, "the text has another block")
	}
	svReach("formatted")
}

// SV_filter: filtering keeps what is asked for, in order, and only that.
//
//gosx:bounds 0-5 lines, any subset
//gosx:budget quick=5s thorough=10s
func SV_filter() {
	var lines []*CovLine
	var want []string
	keep := map[string]bool{}
	n := svChoose("n", 6)
	for i := 0; i < n; i++ {
		p := "f.go:" + strconv.Itoa(i)
		lines = append(lines, &CovLine{Prefix: p, Count: svI64("count")})
		keep[p] = svBool("keep")
		if keep[p] {
			want = append(want, p)
		}
	}
	res := Filter(lines, func(l *CovLine) bool { return keep[l.Prefix] })
	svAssert(len(res) == len(want), "other lines")
	for i, l := range res {
		svAssert(l.Prefix == want[i], "another line")
	}
	svReach("filtered")
}
