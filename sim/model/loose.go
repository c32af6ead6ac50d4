package model

import (
	"fmt"
	"strings"
)

// Blank reports whether an element carries no information: absent values are
// written as empty elements, zero dates and the like by some writers.
func Blank(n *Node) bool {
	if n.V != "" {
		switch {
		case n.V == "N", n.V == "0", n.V == "XXX", n.V == "NONE", strings.HasPrefix(n.V, "00010101"):
			return true
		}
		return false
	}
	for _, k := range n.K {
		if !Blank(k) {
			return false
		}
	}
	return true
}

// DiffLoose compares two aggregates of a response by meaning: an absent
// element and one without information are the same. The elements of got must
// be in the order of the specification.
func DiffLoose(path, agg string, want, got *Node) string {
	return diffLoose(path, Aggs[agg].Fields, want.K, got.K)
}

func diffLoose(path string, fields []*Field, want, got []*Node) string {
	at := func(t string) int {
		for i, f := range fields {
			if f.Tag == t && f.Kind != "poly" {
				return i
			}
			if f.Kind == "poly" {
				for _, l := range [][]string{Polys[f.Poly], MsgSets} {
					for _, s := range l {
						if s == t && (f.Poly == "msgset") == (&l[0] == &MsgSets[0]) {
							return i
						}
					}
				}
			}
		}
		return -1
	}
	last := 0
	for _, g := range got {
		i := at(g.T)
		if i < 0 {
			return fmt.Sprintf("%s: unexpected %s", path, g.T)
		}
		if i < last {
			return fmt.Sprintf("%s: %s out of order", path, g.T)
		}
		last = i
	}
	for i, f := range fields {
		var w, g []*Node
		for _, k := range want {
			if at(k.T) == i {
				w = append(w, k)
			}
		}
		for _, k := range got {
			if at(k.T) == i {
				g = append(g, k)
			}
		}
		if f.Kind == "poly" {
			// Bank transactions among investment transactions are kept in a
			// list of their own.
			if f.Poly == "invtran" {
				w, g = bankLast(w), bankLast(g)
			}
		}
		p := path + ">" + f.Tag
		if len(w) == 0 && len(g) == 1 && f.Max == 1 && Blank(g[0]) || len(g) == 0 && len(w) == 1 && f.Max == 1 && Blank(w[0]) {
			continue
		}
		if len(w) != len(g) {
			return fmt.Sprintf("%s: %d elements, expected %d", p, len(g), len(w))
		}
		for j := range w {
			p := fmt.Sprintf("%s>%s", path, w[j].T)
			if len(w) > 1 {
				p += fmt.Sprintf("[%d]", j)
			}
			if w[j].T != g[j].T {
				return fmt.Sprintf("%s: %s instead", p, g[j].T)
			}
			d := ""
			switch {
			case f.Kind == "poly" && f.Poly == "msgset":
				if len(g[j].K) != 1 || g[j].K[0].T != w[j].K[0].T {
					d = p + ": message set"
				} else {
					d = DiffLoose(p, "MSGSET", w[j].K[0], g[j].K[0])
				}
			case f.Kind == "poly":
				d = DiffLoose(p, w[j].T, w[j], g[j])
			case f.Kind == "wrap":
				d = diffLoose(p, f.Kids, w[j].K, g[j].K)
			case f.Kind == "agg":
				d = DiffLoose(p, f.Agg, w[j], g[j])
			case len(g[j].K) > 0 || !SameValue(f, w[j].V, g[j].V):
				d = fmt.Sprintf("%s: %q, expected %q", p, g[j].V, w[j].V)
			}
			if d != "" {
				return d
			}
		}
	}
	return ""
}

func bankLast(l []*Node) []*Node {
	var a, b []*Node
	for _, n := range l {
		if n.T == "INVBANKTRAN" {
			b = append(b, n)
		} else {
			a = append(a, n)
		}
	}
	return append(a, b...)
}
