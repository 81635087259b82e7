package main

import (
	"math"
	"sort"
	"strings"
)

// A proof from some of the assumptions is a proof: the scripts below keep the
// quantifier free assumptions and the k quantified ones that are closest to
// the goal, by the symbols they share.

func symbolsOf(line string, defs map[string][]string) []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if s == "" || seen[s] {
			return
		}
		seen[s] = true
		if d, ok := defs[s]; ok {
			for _, q := range d {
				if !seen[q] {
					seen[q] = true
					out = append(out, q)
				}
			}
			return
		}
		switch s {
		case "assert", "forall", "exists", "let", "select", "store", "ite", "and", "or", "not", "true", "false", "Int", "Real", "Bool", "String", "Array", "Slice", "to_real", "to_int", "sref", "soff", "slen", "scap", "itag", "ival", "ix", "pattern", "define-fun", "mkslice", "mkiface", "as", "const":
			return
		}
		out = append(out, s)
	}
	for i := 0; i < len(line); {
		ch := line[i]
		switch {
		case ch == '|':
			j := strings.IndexByte(line[i+1:], '|')
			if j < 0 {
				return out
			}
			s := line[i+1 : i+1+j]
			if !strings.HasPrefix(s, "_") {
				add(s)
			}
			i += j + 2
		case ch == '"':
			j := strings.IndexByte(line[i+1:], '"')
			if j < 0 {
				return out
			}
			i += j + 2
		case ch == '$' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i
			for j < len(line) && line[j] != ' ' && line[j] != ')' && line[j] != '(' && line[j] != '|' {
				j++
			}
			add(line[i:j])
			i = j
		default:
			i++
		}
	}
	return out
}

// filtered returns scripts with the k most relevant quantified assumptions.
func filtered(body string, ks []int) []string {
	lines := strings.Split(body, "\n")
	defs := map[string][]string{}
	var quant []int
	goal := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "(define-fun $d") {
			n := strings.Fields(l)[1]
			defs[n] = symbolsOf(l[len("(define-fun ")+len(n):], defs)
		}
		if strings.HasPrefix(l, "(assert ") {
			goal = i
			if strings.Contains(l, "(forall ") || strings.Contains(l, "(exists ") {
				quant = append(quant, i)
			}
		}
	}
	if goal < 0 || len(quant) < 6 {
		return nil
	}
	if quant[len(quant)-1] == goal {
		quant = quant[:len(quant)-1]
	}
	syms := map[int][]string{}
	freq := map[string]int{}
	for _, q := range quant {
		syms[q] = symbolsOf(lines[q], defs)
		for _, s := range syms[q] {
			freq[s]++
		}
	}
	w := func(s string) float64 { return 1 + 4/math.Log2(2+float64(freq[s])) }
	rel := map[string]float64{}
	for _, s := range symbolsOf(lines[goal], defs) {
		rel[s] = 1
	}
	type ranked struct {
		line  int
		score float64
	}
	var order []int
	left := append([]int{}, quant...)
	maxk := ks[len(ks)-1]
	decay := 1.0
	for len(order) < maxk && len(left) > 0 {
		var rs []ranked
		for _, q := range left {
			a, b := 0.0, 0.0
			for _, s := range syms[q] {
				if r := rel[s]; r > 0 {
					a += w(s) * r
				} else {
					b += w(s)
				}
			}
			if a > 0 {
				rs = append(rs, ranked{q, a / (a + b)})
			}
		}
		if len(rs) == 0 {
			break
		}
		sort.SliceStable(rs, func(i, j int) bool { return rs[i].score > rs[j].score })
		n := len(rs)/4 + 1
		if n > 4 {
			n = 4
		}
		decay *= 0.9
		take := map[int]bool{}
		for _, r := range rs[:n] {
			order = append(order, r.line)
			take[r.line] = true
			for _, s := range syms[r.line] {
				if rel[s] == 0 {
					rel[s] = decay
				}
			}
		}
		var rest []int
		for _, q := range left {
			if !take[q] {
				rest = append(rest, q)
			}
		}
		left = rest
	}
	var out []string
	for _, k := range ks {
		if k >= len(quant) {
			break
		}
		keep := map[int]bool{}
		for i, l := range order {
			if i < k {
				keep[l] = true
			}
		}
		drop := map[int]bool{}
		for _, q := range quant {
			if !keep[q] {
				drop[q] = true
			}
		}
		var b strings.Builder
		for i, l := range lines {
			if !drop[i] {
				b.WriteString(l)
				b.WriteByte('\n')
			}
		}
		out = append(out, b.String())
	}
	return out
}
