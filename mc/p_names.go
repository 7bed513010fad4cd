package main

import (
	"fmt"
	"strings"
)

// ---- C25: class names --------------------------------------------------------------

type nameCase struct {
	remove []string
	prefix []string // "group:prefix" pairs or one prefix for all
}

func (o nameCase) opt(useClass bool) nameOpt {
	n := nameOpt{useClass: useClass, remove: o.remove, prefix: map[string]string{}}
	for _, p := range o.prefix {
		if i := strings.IndexByte(p, ':'); i >= 0 {
			n.prefix[p[:i]] = p[i+1:]
		} else {
			n.prefix["*"] = p
		}
	}
	return n
}

var nameShapes = []string{"user", "tbl_user", "t_user", "tbl_t_user", "t_tbl_user", "user_tbl_", "users_2", "user_group_member", "TblUser", "TBL_USER", "tblUser", "tuser", "a", "t_a", "user_t", "xtbl_user"}
var nameRemoves = [][]string{nil, {"tbl_"}, {"t_"}, {"tbl_", "t_"}, {"t_", "tbl_"}, {"tbl_", "none_"}, {"Tbl"}, {"user"}, {"_tbl_"}}
var namePrefixes = [][]string{nil, {"Pre"}, {"alpha:A"}, {"alpha:A", "beta:Bee"}, {":None"}, {"alpha:A", ":N"}, {"gamma:G"}}
var nameClasses = []string{"", "MyClass", "tbl_odd"}
var nameGroups = []string{"", "alpha", "beta"}

func nameSchema(n, cls, grp string) *Schema {
	other := "anchor_point"
	return &Schema{Name: "n", Version: "1", Tables: []*Table{
		{Name: n, ClassName: cls, Group: grp, Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "other_id", Type: "int64", Ref: &Ref{other, "id", "n:1"}}, {Name: "self_id", Type: "int64", Ref: &Ref{n, "id", "n:1"}}}},
		{Name: other, Group: "beta", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "kind", Type: "int64", PK: true, NotNull: true}, {Name: "up_id", Type: "int64", Ref: &Ref{n, "id", "1:n"}}}},
	}}
}

func evalC25(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	o := c.X.(nameCase)
	rm, pf := strings.Join(o.remove, ","), strings.Join(o.prefix, ",")
	opt := func(base []string, r, p string) []string {
		if rm != "" {
			base = append(base, r, rm)
		}
		if pf != "" {
			base = append(base, p, pf)
		}
		return base
	}
	if removable(n, o.remove) || n.Tables[0].ClassName != "" || n.Tables[1].ClassName != "" {
		def := map[string][]string{"gorm.Model": gormModel}
		if f := runGorm(r, n, gormOpt{pkg: "main", models: def, names: o.opt(true)}, false, opt(nil, "-r", "-p")...); f != nil {
			return tag("gorm", f)
		}
		if f := r.runKt(n, ktOpt{pkg: "p", repos: "q", relation: "VRelation", names: o.opt(true)}, opt([]string{"-p", "p", "-r", "q", "-l", "VRelation"}, "-d", "-f")...); f != nil {
			return tag("kt", f)
		}
		if f := r.runSa(n, true, saOpt{names: o.opt(true)}, opt(nil, "-r", "-p")...); f != nil {
			return tag("sqlalchemy", f)
		}
	}
	if removable(n, o.remove) {
		out, f := mustRun(r, "o.proto", append([]string{"generate", "pb", "-i", "in.json", "-o", "o.proto"}, opt(nil, "-d", "-f")...)...)
		if f == nil {
			f = checkProto(out, n, pbOpt{start: -1, names: o.opt(false)})
		}
		if f != nil {
			f[0].Msg = fmt.Sprintf("generate pb %v: %s", opt(nil, "-d", "-f"), f[0].Msg)
			return tag("pb", f)
		}
	}
	if len(o.remove)+len(o.prefix) == 0 {
		return tag("graphql", evalC20(r, c))
	}
	return nil
}

func tag(pre string, f []Finding) []Finding {
	for i := range f {
		f[i].Sig = pre + ":" + f[i].Sig
	}
	return f
}

func exploreC25(x *Ctx, emit func(*Case) bool) {
	for _, n := range nameShapes {
		for _, cls := range nameClasses {
			for _, g := range nameGroups {
				for _, rm := range nameRemoves {
					for _, pf := range namePrefixes {
						s := nameSchema(n, cls, g)
						if !genAble(s) {
							continue
						}
						if !emit(&Case{Name: "names", Trace: []string{fmt.Sprintf("table %q class %q group %q remove %q prefix %q", n, cls, g, rm, pf)}, S: s, X: nameCase{rm, pf}}) {
							return
						}
					}
				}
			}
		}
	}
	// several tables with several groups under one option setting
	shapes := nameShapes
	if !x.Thorough {
		shapes = shapes[:6]
	}
	for _, a := range shapes {
		for _, b := range shapes {
			for _, ga := range nameGroups {
				for _, rm := range nameRemoves {
					for _, pf := range namePrefixes {
						s := nameSchema(a, "", ga)
						t := nameSchema(b, "", "alpha").Tables[0]
						s.Tables = append(s.Tables, t)
						if !genAble(s) || !removable(Norm(s), rm) {
							continue
						}
						if !emit(&Case{Name: "names2", Trace: []string{fmt.Sprintf("tables %q (group %q) and %q (group alpha) remove %q prefix %q", a, ga, b, rm, pf)}, S: s, X: nameCase{rm, pf}}) {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	register("C25", func(x *Ctx) {
		x.Pool(evalC25, func(emit func(*Case) bool) { exploreC25(x, emit) })
		x.Note("depth", 3)
	})
}
