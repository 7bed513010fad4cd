package main

import "sort"

// allVecs enumerates every vector with v[i] < radix[i].
func allVecs(radix []int) [][]int {
	out := [][]int{{}}
	for _, r := range radix {
		var next [][]int
		for _, v := range out {
			for k := 0; k < r; k++ {
				next = append(next, append(append([]int{}, v...), k))
			}
		}
		out = next
	}
	return out
}

// pairVecs is a deterministic set of vectors in which every pair of option
// values occurs.
func pairVecs(radix []int) [][]int {
	type pair struct{ i, vi, j, vj int }
	all := allVecs(radix)
	if len(all) > 6000 {
		var t [][]int
		for i := 0; i < len(all); i += len(all)/6000 + 1 {
			t = append(t, all[i])
		}
		all = t
	}
	pairs := func(v []int) []pair {
		var r []pair
		for i := range v {
			for j := i + 1; j < len(v); j++ {
				r = append(r, pair{i, v[i], j, v[j]})
			}
		}
		return r
	}
	need := map[pair]bool{}
	for _, s := range all {
		for _, p := range pairs(s) {
			need[p] = true
		}
	}
	var out [][]int
	for len(need) > 0 {
		best := -1
		var bs []int
		for _, s := range all {
			n := 0
			for _, p := range pairs(s) {
				if need[p] {
					n++
				}
			}
			if n > best {
				best, bs = n, s
			}
		}
		for _, p := range pairs(bs) {
			delete(need, p)
		}
		out = append(out, bs)
	}
	return out
}

func sortStrs(l []string) []string {
	sort.Strings(l)
	return l
}
