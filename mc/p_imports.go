package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// ---- C08: ojson -----------------------------------------------------------

// v1Types maps a spelling of the previous format to the acceptable types.
var v1Types = map[string][]string{
	"string": {"varchar"}, "varchar": {"varchar"}, "int": {"int32"}, "integer": {"int32"}, "long": {"int64"}, "bigint": {"int64"},
	"datetime": {"datetime"}, "boolean": {"boolean"}, "bool": {"boolean"}, "decimal": {"decimal"}, "number": {"decimal"},
	"float": {"float"}, "text": {"text16"}, "date": {"date"}, "time": {"time"}, "blob": {"blob16"},
	"char": {"varchar", "char"}, "smallint": {"int32", "int16"}, "double": {"decimal", "double"},
}

func renderOjson(s *Schema, explicit bool) []byte {
	type M = map[string]interface{}
	put := func(m M, k string, v interface{}) {
		switch y := v.(type) {
		case string:
			if y == "" && !explicit {
				return
			}
		case int:
			if y == 0 && !explicit {
				return
			}
		case bool:
			if !y && !explicit {
				return
			}
		}
		m[k] = v
	}
	root := M{}
	put(root, "author", s.Author)
	put(root, "name", s.Name)
	put(root, "version", s.Version)
	var ts []M
	for _, t := range s.Tables {
		tm := M{"name": t.Name}
		put(tm, "desc", t.Desc)
		put(tm, "group", t.Group)
		put(tm, "className", t.ClassName)
		var cs []M
		for _, c := range t.Columns {
			m := M{"name": c.Name, "type": c.Type}
			put(m, "description", c.Desc)
			put(m, "size", c.Size)
			put(m, "scale", c.Scale)
			put(m, "notnull", c.NotNull)
			put(m, "pk", c.PK)
			put(m, "unique", c.Unique)
			put(m, "autoinc", c.AutoInc)
			put(m, "default", c.Default)
			if c.Ref != nil {
				m["ref"] = M{"table": c.Ref.Table, "column": c.Ref.Column}
			} else if explicit {
				m["ref"] = nil
			}
			cs = append(cs, m)
		}
		tm["columns"] = cs
		ts = append(ts, tm)
	}
	root["tables"] = ts
	b, _ := json.MarshalIndent(root, "", "  ")
	return b
}

func v1Able(s *Schema) bool {
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if v1Types[strings.ToLower(c.Type)] == nil || c.Size > 65535 {
				return false
			}
		}
	}
	return uniqueNames(s)
}

func v1Seeds() []Seed {
	var r []Seed
	for _, sd := range stdSeeds() {
		for _, t := range sd.S.Tables {
			for _, c := range t.Columns {
				switch {
				case isInt(c.Type):
					c.Type = map[bool]string{true: "long", false: "int"}[c.Type == "int64"]
				case c.Type == "datetime" || c.Type == "date" || c.Type == "time" || c.Type == "boolean" || c.Type == "decimal" || c.Type == "float":
				case isText(c.Type):
					c.Type = "text"
				case isBlob(c.Type):
					c.Type = "blob"
				default:
					c.Type = "string"
				}
				c.Values, c.OnUpdate = nil, ""
			}
			t.Indices = nil
		}
		r = append(r, sd)
	}
	return r
}

func evalC08(r *Runner, c *Case) []Finding {
	for _, explicit := range []bool{false, true} {
		r.Put("in.json", renderOjson(c.S, explicit))
		out, f := mustRun(r, "o.json", "import", "ojson", "-i", "in.json", "-o", "o.json")
		if f != nil {
			return f
		}
		got, err := parseSchema([]byte(out))
		if err != nil {
			return finding("output-json", "%v", err)
		}
		w := c.S.Clone()
		for _, t := range w.Tables {
			gt := got.Table(t.Name)
			for _, cl := range t.Columns {
				ok := v1Types[strings.ToLower(cl.Type)]
				cl.Type = ok[0]
				if gt != nil && gt.Col(cl.Name) != nil && contains(ok, gt.Col(cl.Name).Type) {
					cl.Type = gt.Col(cl.Name).Type
				}
				if cl.Ref != nil {
					cl.Ref.Relationship = ""
				}
			}
		}
		if f := diffSchemas(got, Norm(w), ""); f != nil {
			return f
		}
	}
	return nil
}

// ---- C09: StarUML ---------------------------------------------------------

// style: 0 length form, 1 id scheme, 2 surrounding elements, 3 explicit false
// flags, 4 padded documentation, 5 relationship elements
var umlRadix = []int{5, 2, 3, 2, 2, 2}

func renderUML(s *Schema, v []int) []byte {
	type M = map[string]interface{}
	ref := func(id string) M { return M{"$ref": id} }
	tid := func(i int) string {
		if v[1] == 1 {
			return fmt.Sprintf("AAAAAAF+%dQ=", 900-i)
		}
		return fmt.Sprintf("T%d", i)
	}
	cid := func(i, j int) string {
		if v[1] == 1 {
			return fmt.Sprintf("AAAAAAF+%dR%d=", j, i)
		}
		return fmt.Sprintf("T%dC%d", i, j)
	}
	find := func(r *Ref) string {
		for i, t := range s.Tables {
			for j, c := range t.Columns {
				if t.Name == r.Table && c.Name == r.Column {
					return cid(i, j)
				}
			}
		}
		return "gone-" + r.Table + "." + r.Column
	}
	ents := []M{}
	for i, t := range s.Tables {
		cols := []M{}
		var owned []M
		for j, c := range t.Columns {
			m := M{"_type": "ERDColumn", "_id": cid(i, j), "_parent": ref(tid(i)), "name": c.Name}
			ty := c.Type
			switch {
			case c.Scale > 0:
				ty = fmt.Sprintf("%s(%d,%d)", ty, c.Size, c.Scale)
				if v[0] == 1 {
					ty = fmt.Sprintf("%s(%d, %d)", c.Type, c.Size, c.Scale)
				}
				if v[0] == 2 {
					m["length"] = 0
				}
				if v[0] == 3 {
					m["length"] = ""
				}
				if v[0] == 4 {
					ty = fmt.Sprintf("%s(%d,%d)", c.Type, c.Size%97+c.Scale, c.Scale)
					m["length"] = c.Size
				}
			case c.Size > 0 && v[0] == 0:
				m["length"] = c.Size
			case c.Size > 0 && v[0] == 4: // the length property takes precedence
				ty = fmt.Sprintf("%s(%d)", ty, c.Size%97+3)
				m["length"] = fmt.Sprint(c.Size)
			case c.Size > 0 && v[0] == 1:
				m["length"] = fmt.Sprint(c.Size)
			case c.Size > 0 && v[0] == 2:
				ty = fmt.Sprintf("%s(%d)", ty, c.Size)
			case c.Size > 0:
				ty = fmt.Sprintf("%s(%d)", ty, c.Size)
				m["length"] = "0"
			case v[0] == 1:
				m["length"] = ""
			case v[0] == 2:
				m["length"] = 0
			}
			m["type"] = ty
			flag := func(k string, b bool) {
				if b || v[3] == 1 {
					m[k] = b
				}
			}
			flag("nullable", !c.NotNull)
			flag("primaryKey", c.PK)
			flag("unique", c.Unique)
			if c.Desc != "" {
				m["documentation"] = c.Desc
				if v[4] == 1 {
					m["documentation"] = " " + c.Desc + "\n"
				}
			}
			if c.Ref != nil {
				m["referenceTo"] = ref(find(c.Ref))
				m["foreignKey"] = true
				if v[5] == 1 {
					owned = append(owned, M{"_type": "ERDRelationship", "_id": cid(i, j) + "rel", "_parent": ref(tid(i)), "end1": M{"_type": "ERDRelationshipEnd", "reference": ref(tid(i))}})
				}
			} else if v[3] == 1 {
				m["referenceTo"] = nil
			}
			cols = append(cols, m)
		}
		e := M{"_type": "ERDEntity", "_id": tid(i), "_parent": ref("DM"), "name": t.Name, "columns": cols}
		if owned != nil {
			e["ownedElements"] = owned
		}
		if v[5] == 1 {
			e["tags"] = []M{{"_type": "Tag", "_id": tid(i) + "tag", "name": "x"}}
		}
		ents = append(ents, e)
		if v[2] == 1 {
			ents = append(ents, M{"_type": "ERDDiagram", "_id": fmt.Sprintf("D%d", i), "_parent": ref("DM"), "name": "dia", "ownedViews": []M{{"_type": "ERDEntityView", "_id": "x", "model": ref(tid(i))}}})
		}
	}
	els := []M{}
	if v[2] > 0 {
		els = append(els, M{"_type": "UMLModel", "_id": "UM", "_parent": ref("P"), "name": "Model", "ownedElements": []M{{"_type": "UMLClass", "_id": "K", "name": "user"}}})
	}
	els = append(els, M{"_type": "ERDDataModel", "_id": "DM", "_parent": ref("P"), "name": "Data Model1", "ownedElements": ents})
	if v[2] == 2 {
		els = append(els, M{"_type": "UMLModel", "_id": "UM2", "_parent": ref("P"), "name": "Model2"})
	}
	b, _ := json.MarshalIndent(M{"_type": "Project", "_id": "P", "name": s.Version, "ownedElements": els}, "", "\t")
	return b
}

func umlAble(s *Schema) bool {
	if !uniqueNames(s) {
		return false
	}
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			ct := canonType(c.Type)
			if !typeSet[ct] || ct == "enum" || ct == "set" || c.Scale > 0 && c.Size == 0 {
				return false
			}
		}
	}
	return true
}

func evalC09(r *Runner, c *Case) []Finding {
	for _, v := range c.X.([][]int) {
		r.Put("in.mdj", renderUML(c.S, v))
		out, f := mustRun(r, "o.json", "import", "staruml", "-i", "in.mdj", "-o", "o.json")
		if f != nil {
			return f
		}
		got, err := parseSchema([]byte(out))
		if err != nil {
			return finding("output-json", "%v", err)
		}
		w := c.S.Clone()
		w.Author, w.Name = "", ""
		for _, t := range w.Tables {
			t.Group, t.ClassName, t.Desc, t.Indices = "", "", "", nil
			if gt := got.Table(t.Name); gt != nil {
				t.Desc = gt.Desc // entity documentation is outside the property
			}
			for _, cl := range t.Columns {
				cl.Desc = strings.TrimSpace(cl.Desc)
				cl.AutoInc, cl.Default, cl.OnUpdate, cl.Values = false, "", "", nil
				if cl.Ref != nil {
					cl.Ref.Relationship = ""
					tt := c.S.Table(cl.Ref.Table)
					if tt == nil || tt.Col(cl.Ref.Column) == nil {
						cl.Ref = nil
					}
				}
			}
		}
		if f := diffSchemas(got, Norm(w), ""); f != nil {
			f[0].Msg += fmt.Sprintf("\nstyle %v", v)
			return f
		}
	}
	return nil
}

func noEnums(seeds []Seed) []Seed {
	for _, sd := range seeds {
		for _, t := range sd.S.Tables {
			for _, c := range t.Columns {
				if c.Type == "enum" || c.Type == "set" {
					c.Type, c.Values = "varchar", nil
				}
			}
		}
	}
	return seeds
}

func init() {
	register("C08", func(x *Ctx) {
		a := alphaFull()
		a.Types = nil
		for k := range v1Types {
			a.Types = append(a.Types, k)
		}
		a.Types = append(sortStrs(a.Types), "VARCHAR", "BigInt", "Int", "DateTime")
		a.OnUpdates, a.Values, a.Indices = nil, nil, false
		b := alphaPairs()
		b.Types = []string{"long", "string", "number", "TEXT", "boolean", "smallint"}
		b.OnUpdates, b.Values, b.Indices = nil, nil, false
		x.Pool(evalC08, func(emit func(*Case) bool) {
			x.Explore(v1Seeds(), []*Alphabet{a}, v1Able, emit)
			sm := v1Seeds()[:2]
			lv := []*Alphabet{b, b}
			if x.Thorough {
				lv = append(lv, b)
			}
			x.Explore(sm, lv, v1Able, emit)
		})
	})
	register("C09", func(x *Ctx) {
		all, few := allVecs(umlRadix), pairVecs(umlRadix)
		x.Note("renderings_all", len(all))
		x.Note("renderings_pairwise", len(few))
		a := alphaFull()
		a.Defaults, a.OnUpdates, a.Values, a.Indices, a.Groups, a.Classes, a.TblDescs, a.Flags = nil, nil, nil, false, nil, nil, nil, "npu"
		b := alphaPairs()
		b.Defaults, b.OnUpdates, b.Values, b.Indices, b.Groups, b.Classes, b.TblDescs, b.Flags = nil, nil, nil, false, nil, nil, nil, "npu"
		x.Pool(evalC09, func(emit func(*Case) bool) {
			for _, sd := range noEnums(stdSeeds()) {
				for i := 0; i < len(all); i += 16 {
					n := i + 16
					if n > len(all) {
						n = len(all)
					}
					emit(&Case{Name: fmt.Sprintf("%s renderings %d..", sd.Name, i), S: sd.S, X: all[i:n]})
				}
			}
			n := 0
			x.Explore(noEnums(stdSeeds()), []*Alphabet{a}, umlAble, func(c *Case) bool {
				k := n % (len(few) - 3)
				n++
				c.X = few[k : k+4]
				if x.Thorough || len(c.Trace) == 0 {
					c.X = few
				}
				return emit(c)
			})
			lv := []*Alphabet{b, b}
			if x.Thorough {
				lv = append(lv, b)
			}
			x.Explore(noEnums(smallSeeds()), lv, umlAble, func(c *Case) bool {
				c.X = few[n%len(few) : n%len(few)+1]
				if x.Thorough && len(c.Trace) < 3 {
					c.X = few
				}
				n++
				return emit(c)
			})
		})
	})
}
