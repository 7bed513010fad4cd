package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
)

// ---- C30: values of text options -------------------------------------------------------

type optCase struct {
	cmd, opt int
	vals     []string
}

// optTokens are the pieces a value of the option is built from.
func optTokens(o cliOpt) []string {
	switch o.long {
	case "prefix":
		return []string{"alpha", "beta", ":", ",", "Pre"}
	case "annotation":
		return []string{"alpha", "beta", ":", ",", ";", "@A"}
	case "groups":
		return []string{"alpha", "beta", ",", "x", " "}
	case "excludes":
		return []string{"user", "tbl_team", ",", "x"}
	case "removePrefix":
		return []string{"tbl_", "us", ",", "x"}
	case "embed":
		return []string{"Id", ":", ",", "id", "name"}
	case "relationTagStart":
		return []string{"0", "1", "9", "-", "x"}
	}
	return []string{"a", ".", "/", "'", "\n"}
}

// optCanon gives another value which must have the same effect, if the
// documentation settles that.
func optCanon(o cliOpt, v string) (string, bool) {
	parts := strings.Split(v, ",")
	known := map[string]bool{"alpha": true, "beta": true}
	switch o.long {
	case "groups":
		m := map[string]bool{}
		for _, p := range parts {
			if p == "" || strings.Contains(p, " ") {
				return "", false
			}
			if known[p] {
				m[p] = true
			}
		}
		if len(m) == 0 {
			return "nosuch", true
		}
		return strings.Join(keysOf(m), ","), true
	case "excludes":
		m := map[string]bool{}
		for _, p := range parts {
			if p == "user" || p == "tbl_team" {
				m[p] = true
			} else if p == "" {
				return "", false
			}
		}
		if len(m) == 0 {
			return "nosuch", true
		}
		return strings.Join(keysOf(m), ","), true
	case "removePrefix":
		var r []string
		for _, p := range parts {
			if p == "tbl_" || p == "us" {
				r = append(r, p)
			} else if p == "" || strings.Contains("user", p) || strings.Contains("tbl_team", p) {
				return "", false
			}
		}
		if len(r) == 0 {
			return "nosuch", true
		}
		return strings.Join(r, ","), true
	case "prefix", "annotation":
		if !strings.Contains(v, ":") {
			return "", false
		}
		m := map[string]string{}
		for _, p := range parts {
			k, x, ok := strings.Cut(p, ":")
			if !ok || strings.Contains(x, ":") || strings.Contains(k, ";") {
				return "", false
			}
			if o.long == "annotation" {
				for _, a := range strings.Split(x, ";") {
					if a != "@A" {
						return "", false
					}
				}
			}
			if _, twice := m[k]; twice {
				return "", false
			}
			m[k] = x
		}
		var r []string
		for _, k := range []string{"beta", "", "alpha"} {
			// a group without an entry has no prefix, as one with an empty entry
			if x, ok := m[k]; ok || len(m) > 0 && (o.long == "prefix" || k != "") {
				r = append(r, k+":"+x)
			}
		}
		if len(m) == 0 {
			return "nosuch:X", true
		}
		return strings.Join(r, ","), true
	}
	return "", false
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func evalC30(r *Runner, c *Case) []Finding {
	k := c.X.(*optCase)
	cmd := &cliCmds[k.cmd]
	o := cmd.opt[k.opt]
	var bad []Finding
	seen := map[string]bool{}
	add := func(f []Finding) {
		for _, x := range f {
			if !seen[x.Sig] {
				seen[x.Sig] = true
				bad = append(bad, x)
			}
		}
	}
	made := map[string]map[string]string{}
	r.Reset()
	putCliInputs(r)
	run := func(v string) map[string]string {
		if t, ok := made[v]; ok {
			return t
		}
		r.Reset2(cliInputs)
		args := append([]string{}, cmd.verb...)
		for _, q := range cmd.req {
			args = append(args, "--"+q.long, q.v1)
		}
		args = append(args, "--"+o.long+"="+v)
		res := r.Run(args...)
		if res.Crashed() || res.Exit < 0 || res.Exit >= 2 {
			add(finding("crash:"+cmd.name+" --"+o.long, "%s: exit %d: %s", cmdLine(args), res.Exit, clip(res.Out, 500)))
			return nil
		}
		if !res.OK() {
			if strings.TrimSpace(res.Out) == "" {
				add(finding("silent:"+cmd.name+" --"+o.long, "%s: exit %d without a message", cmdLine(args), res.Exit))
			}
			return nil
		}
		t := r.Tree()
		for n, b := range cliFiles() {
			if x, ok := t[n]; ok && x != string(b) {
				add(finding("input:"+cmd.name+" --"+o.long, "%s changes %s", cmdLine(args), n))
			}
			delete(t, n)
		}
		made[v] = hText(t)
		return made[v]
	}
	for _, v := range k.vals {
		t := run(v)
		w, ok := optCanon(o, v)
		if !ok {
			continue
		}
		if t == nil {
			add(finding("refused:"+cmd.name+" --"+o.long, "%s --%s=%q is not accepted", cmd.name, o.long, v))
			continue
		}
		if w == v {
			continue
		}
		if u := run(w); u != nil {
			atomic.AddInt64(&optPairs, 1)
			if d := diffTrees(t, u); d != "" {
				add(finding("means:"+cmd.name+" --"+o.long, "%s: --%s=%q and --%s=%q differ: %s", cmd.name, o.long, v, o.long, w, d))
			}
		}
	}
	return bad
}

var optPairs int64

func exploreC30(x *Ctx, emit func(*Case) bool) {
	depth := 4
	if x.Thorough {
		depth = 6
	}
	for ci := range cliCmds {
		for oi, o := range cliCmds[ci].opt {
			if o.flag || o.long == "output" {
				continue
			}
			tok := optTokens(o)
			level := []string{""}
			all := []string{""}
			seen := map[string]bool{"": true}
			for d := 0; d < depth; d++ {
				var next []string
				for _, p := range level {
					for _, t := range tok {
						x.trans++
						if s := p + t; !seen[s] {
							seen[s] = true
							next = append(next, s)
						}
					}
				}
				level = next
				all = append(all, next...)
			}
			if canon := map[string]bool{"prefix": true, "annotation": true}[o.long]; canon {
				// whole entries, in every order
				ent := []string{"alpha:Aa", "beta:Bb", "gamma:Cc", ":Dd"}
				if o.long == "annotation" {
					ent = []string{"alpha:@A", "beta:@A;@A", "gamma:@A", ":@A"}
				}
				all = append(all, permute(ent)...)
			}
			x.states += len64(all)
			for len(all) > 0 {
				n := min(len(all), 64)
				k := &optCase{ci, oi, all[:n]}
				if !emit(&Case{Name: cliCmds[ci].name + " --" + o.long, Trace: []string{fmt.Sprintf("%q..%q", all[0], all[n-1])}, X: k}) {
					return
				}
				all = all[n:]
			}
		}
	}
}

func len64(l []string) int64 { return int64(len(l)) }

// permute gives every non-empty arrangement of the entries, joined by commas.
func permute(ent []string) []string {
	var r []string
	var rec func(cur, left []string)
	rec = func(cur, left []string) {
		if len(cur) > 0 {
			r = append(r, strings.Join(cur, ","))
		}
		for i := range left {
			rest := append(append([]string{}, left[:i]...), left[i+1:]...)
			rec(append(append([]string{}, cur...), left[i]), rest)
		}
	}
	rec(nil, ent)
	return r
}

func init() {
	register("C30", func(x *Ctx) {
		x.Pool(evalC30, func(emit func(*Case) bool) { exploreC30(x, emit) })
		x.Note("equivalent_pairs", int(atomic.LoadInt64(&optPairs)))
		x.Note("depth", 4)
	})
}
