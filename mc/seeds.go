package main

import (
	"fmt"
	"strings"
)

func seedTwo() *Schema {
	return &Schema{Author: "ann", Version: "1.0.0", Tables: []*Table{
		{Name: "user", Desc: "User table", Columns: []*Col{
			{Name: "id", Type: "int64", Desc: "unique id", PK: true, AutoInc: true, NotNull: true},
			{Name: "name", Type: "varchar", Size: 40, Desc: "login name", Unique: true, NotNull: true, Default: "noname"},
			{Name: "team_id", Type: "int64", Desc: "team", Ref: &Ref{"team", "id", "n:1"}},
		}},
		{Name: "team", Desc: "Team table", Columns: []*Col{
			{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true},
			{Name: "name", Type: "varchar", Size: 40, Unique: true},
			{Name: "score", Type: "decimal", Size: 10, Scale: 2, Default: "0"},
		}, Indices: []*Index{{"idx_score", []string{"score"}}}},
	}}
}

func seedMin() *Schema {
	return &Schema{Version: "1.0.0", Tables: []*Table{
		{Name: "item", Columns: []*Col{
			{Name: "id", Type: "int32", PK: true, NotNull: true},
			{Name: "val", Type: "varchar", Size: 10},
		}}}}
}

func seedGroups() *Schema {
	mk := func(n, g string, ref *Ref) *Table {
		return &Table{Name: n, Group: g, Columns: []*Col{
			{Name: "id", Type: "int64", PK: true, NotNull: true, AutoInc: true},
			{Name: n + "_name", Type: "varchar", Size: 30, Unique: true, NotNull: true},
			{Name: "parent_id", Type: "int64", Ref: ref},
		}}
	}
	return &Schema{Version: "1.2", Name: "grp", Tables: []*Table{
		mk("zebra", "alpha", &Ref{"apple", "id", "n:1"}),
		mk("apple", "beta", &Ref{"zebra", "id", "1:n"}),
		mk("mango", "", &Ref{"apple", "id", "1:1"}),
		mk("berry", "beta", &Ref{"berry", "id", "n:1"}),
		mk("cedar", "alpha", nil),
	}}
}

func seedKeys() *Schema {
	return &Schema{Version: "1.0.0", Tables: []*Table{
		{Name: "order_line", Desc: "lines", Group: "sales", Columns: []*Col{
			{Name: "order_id", Type: "int64", PK: true, NotNull: true},
			{Name: "line_no", Type: "int32", PK: true, NotNull: true},
			{Name: "sku", Type: "varchar", Size: 20, Unique: true, NotNull: true},
			{Name: "wh", Type: "char", Size: 4, Unique: true, Default: "MAIN"},
			{Name: "qty", Type: "int16", Default: "1", NotNull: true},
			{Name: "price", Type: "decimal", Size: 12, Scale: 4},
			{Name: "created_at", Type: "datetime", NotNull: true, Default: "fn::CURRENT_TIMESTAMP"},
			{Name: "updated_at", Type: "datetime", NotNull: true, Default: "fn::CURRENT_TIMESTAMP", OnUpdate: "fn::CURRENT_TIMESTAMP"},
		}, Indices: []*Index{{"idx_a", []string{"qty", "price"}}, {"idx_b", []string{"sku"}}}},
		{Name: "log", Columns: []*Col{
			{Name: "msg", Type: "text16"},
			{Name: "level", Type: "enum", Values: []string{"low", "high"}, Default: "low", NotNull: true},
			{Name: "tags", Type: "set", Values: []string{"x", "y", "z"}},
		}},
	}}
}

// seedWide has every column type, nullable and not null.
func seedWide() *Schema {
	s := &Schema{Version: "1.0.0"}
	for _, nn := range []bool{false, true} {
		t := &Table{Name: "wide_n", Columns: []*Col{{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true}}}
		if nn {
			t.Name = "wide_nn"
			t.Desc = "all types, not null"
		}
		for _, ty := range allTypes {
			c := &Col{Name: "c_" + ty, Type: ty, NotNull: nn}
			switch ty {
			case "varchar", "varbinary", "char", "binary":
				c.Size = 32
			case "bit":
				c.Size = 4
			case "decimal":
				c.Size, c.Scale = 20, 5
			case "enum", "set":
				c.Values = []string{"a", "b"}
			}
			t.Columns = append(t.Columns, c)
		}
		s.Tables = append(s.Tables, t)
	}
	return s
}

func seedMany(nt, nc int) *Schema {
	s := &Schema{Version: "1.0.0"}
	for i := 0; i < nt; i++ {
		t := &Table{Name: fmt.Sprintf("t%d", i), Group: fmt.Sprintf("g%d", i%3)}
		for j := 0; j < nc; j++ {
			c := &Col{Name: fmt.Sprintf("c%d", j), Type: "int32"}
			if j == 0 {
				c.PK, c.NotNull = true, true
			}
			if j == 1 && i > 0 {
				c.Ref = &Ref{fmt.Sprintf("t%d", i-1), "c0", "n:1"}
			}
			t.Columns = append(t.Columns, c)
		}
		s.Tables = append(s.Tables, t)
	}
	return s
}

// seedKin has names which are parts of each other, and a class name which is
// the name of another table.
func seedKin() *Schema {
	return &Schema{Version: "1.0.0", Tables: []*Table{
		{Name: "user", ClassName: "users", Group: "us", Columns: []*Col{
			{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true},
			{Name: "name", Type: "varchar", Size: 20, Unique: true},
			{Name: "name_kana", Type: "varchar", Size: 20, Desc: "name"},
			{Name: "user", Type: "varchar", Size: 20, Default: "name"},
			{Name: "users_id", Type: "int64", Ref: &Ref{"users", "id", "n:1"}},
		}, Indices: []*Index{{"user", []string{"name_kana"}}, {"user_", []string{"name"}}}},
		{Name: "users", ClassName: "Member", Group: "user", Desc: "user", Columns: []*Col{
			{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true},
			{Name: "id2", Type: "int64", Unique: true, NotNull: true},
			{Name: "user_id", Type: "int64", Ref: &Ref{"user", "id", "1:1"}},
			{Name: "user_id_2", Type: "int64", Ref: &Ref{"user", "id", "1:n"}},
		}, Indices: []*Index{{"id", []string{"id2", "user_id"}}}},
		{Name: "user_role", Group: "us", Columns: []*Col{
			{Name: "user_role_id", Type: "int64", PK: true, NotNull: true},
			{Name: "user_role", Type: "varchar", Size: 9, Unique: true},
			{Name: "user_id", Type: "int64", PK: true, NotNull: true, Ref: &Ref{"user", "id", "n:1"}},
		}, Indices: []*Index{{"user_r", []string{"user_role"}}}},
	}}
}

// seedHeap has many of everything in one table: keys, unique columns, indices
// and their columns, references to one table, values.
func seedHeap() *Schema {
	t := &Table{Name: "heap", Desc: "many of everything", Group: "pile"}
	for i, n := range []string{"zone", "area", "shelf", "bin"} {
		t.Columns = append(t.Columns, &Col{Name: n + "_key", Type: []string{"int64", "varchar", "int32", "char"}[i], Size: []int{0, 20, 0, 3}[i], PK: true, NotNull: true})
	}
	for i, n := range []string{"serial", "label", "barcode", "alias"} {
		t.Columns = append(t.Columns, &Col{Name: n, Type: "varchar", Size: 10 + i, Unique: true, NotNull: i%2 == 0})
	}
	for i, n := range []string{"owner", "buyer", "maker", "mover"} {
		t.Columns = append(t.Columns, &Col{Name: n + "_id", Type: "int64", Ref: &Ref{"party", "id", []string{"n:1", "1:1", "1:n", "n:1"}[i]}})
	}
	t.Columns = append(t.Columns, &Col{Name: "kind", Type: "enum", Values: seq(12), Default: "v11"}, &Col{Name: "marks", Type: "set", Values: seq(64)},
		&Col{Name: "parent_zone", Type: "int64", Ref: &Ref{"heap", "zone_key", "n:1"}}, &Col{Name: "next_zone", Type: "int64", Ref: &Ref{"heap", "zone_key", "1:1"}})
	for i := 0; i < 4; i++ {
		ix := &Index{Name: fmt.Sprintf("ix%d_heap", i)}
		for j := 0; j < 4; j++ {
			ix.Columns = append(ix.Columns, t.Columns[(i*3+j*5)%16].Name)
		}
		t.Indices = append(t.Indices, ix)
	}
	return &Schema{Version: "3", Tables: []*Table{t, {Name: "party", Group: "pile", Columns: []*Col{
		{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true},
		{Name: "heap_zone", Type: "int64", Ref: &Ref{"heap", "zone_key", "n:1"}},
	}}}}
}

func seedEmpty() *Schema { return &Schema{Version: "0.1"} }
func seedNoCols() *Schema {
	return &Schema{Version: "0.1", Tables: []*Table{{Name: "bare"}, {Name: "nokey", Columns: []*Col{{Name: "a", Type: "int32"}, {Name: "b", Type: "varchar", Size: 5}}}}}
}

func stdSeeds() []Seed {
	return []Seed{{"min", seedMin()}, {"two", seedTwo()}, {"keys", seedKeys()}, {"groups", seedGroups()}, {"wide", seedWide()}, {"many", seedMany(28, 3)}, {"long", seedMany(2, 30)}, {"kin", seedKin()}, {"heap", seedHeap()}, {"nocols", seedNoCols()}, {"empty", seedEmpty()}}
}

// smallSeeds are explored to a greater depth.
func smallSeeds() []Seed {
	return []Seed{{"min", seedMin()}, {"two", seedTwo()}}
}

// longName is as long as MySQL takes.
var longName = strings.Repeat("long_", 12) + "name"

var nastyText = []string{"", "plain", "it's", "say \"hi\"", "back\\slash", "a, b; (c)", "한글 설명", "100%s", "`tick`", "two\nlines", "a | b", "end\\", "# no -- note", "{{.}} ${x} <b> &amp;", " padded ", "tab\there", "é😀", "/* c */ // c", strings.Repeat("long ", 60) + "end", "007", "one\n\ntwo", "k=v"}

func alphaFull() *Alphabet {
	return &Alphabet{
		Types:     append(append([]string{}, allTypes...), append(aliasNames(), "VARCHAR", "BigInt", "Int32")...),
		Sizes:     [][2]int{{0, 0}, {1, 0}, {2, 0}, {10, 0}, {255, 0}, {256, 0}, {65535, 0}, {10, 2}, {5, 5}, {65, 30}, {3, 0}, {127, 0}, {128, 0}, {4096, 0}, {16384, 0}, {32768, 0}, {30, 1}, {10, 10}, {0, 2}},
		Flags:     "npua",
		Defaults:  append([]string{"0", "1", "-1", "1.5", "true", "false", "2020-01-02 03:04:05", "2020", "a", "1.50", "1e3", "null", "NULL", "0.1", "1234567.89", "010", "-0", "9223372036854775807", "-9223372036854775808", "4294967296", "12345678901234567.89", "00:30:00", "0000-00-00", "2020-12-31", "x=true", "fn::CURRENT_TIMESTAMP", "fn::NOW", "fn::uuid"}, nastyText...),
		OnUpdates: []string{"", "fn::CURRENT_TIMESTAMP", "fn::NOW", "x", "1"},
		Descs:     nastyText,
		ColNames:  []string{"renamed_col", "CamelCol", "x1_y2", "a", "URL", "type", "idle_id", "a_b_c", "x_url", longName},
		TblNames:  []string{"renamed_tbl", "CamelTbl", "t_9", "tbl_users", longName},
		Groups:    []string{"", "alpha", "g x"},
		Classes:   []string{"", "MyClass"},
		Refs:      []Ref{{}, {"*", "*", "n:1"}, {"*", "*", "1:1"}, {"*", "*", "1:n"}, {"*", "*", ""}, {"=", "*", "n:1"}, {"$", "*", "n:1"}, {"nowhere", "id", "n:1"}, {"*", "nocol", "n:1"}, {"^", "id", "n:1"}, {"*", "^", "1:1"}},
		Values:    [][]string{{"a"}, {"b", "a"}, {"it's", "b"}, {"x y", "z,w"}, {"1", "2", "3"}, {"b\\s", "\"q\"", "end\\"}, {"100%s", "한글", "`t`"}, {" a", "b ", "A"}, {"", "x"}},
		TblDescs:  nastyText,
		Structure: true, Indices: true, Meta: true, Near: true,
	}
}

// alphaPairs is the reduced alphabet for interactions between edits.
func alphaPairs() *Alphabet {
	return &Alphabet{
		Types:     []string{"varchar", "int64", "decimal", "datetime", "boolean", "text16", "enum", "int8", "date", "double", "binary", "char", "set", "bit", "TEXT", "long"},
		Sizes:     [][2]int{{0, 0}, {1, 0}, {20, 0}, {20, 5}},
		Flags:     "npua",
		Defaults:  []string{"", "0", "1", "-1", "abc", "it's", "true", "fn::NOW", "2020-01-02"},
		OnUpdates: []string{"", "fn::NOW"},
		Descs:     []string{"", "d", "q'\"\\"},
		ColNames:  []string{"renamed_col"},
		TblNames:  []string{"renamed_tbl"},
		Groups:    []string{"alpha"},
		Classes:   []string{"MyClass"},
		Refs:      []Ref{{}, {"*", "*", "n:1"}, {"=", "*", "1:n"}, {"nowhere", "id", "1:1"}},
		Values:    [][]string{{"a", "b", "c"}},
		TblDescs:  []string{"", "it's"},
		Structure: true, Indices: true,
	}
}

// alphaCore is for depth three.
func alphaCore() *Alphabet {
	return &Alphabet{
		Types:     []string{"varchar", "int64", "decimal", "datetime", "enum"},
		Sizes:     [][2]int{{0, 0}, {20, 5}},
		Flags:     "npua",
		Defaults:  []string{"", "1", "abc"},
		Descs:     []string{"d'"},
		ColNames:  []string{"renamed_col"},
		Refs:      []Ref{{}, {"*", "*", "n:1"}},
		TblNames:  []string{"renamed_tbl"},
		Structure: true,
	}
}

// levels gives depth 2 over the pair alphabet, or depth 3 when thorough.
func (x *Ctx) levels(a *Alphabet) []*Alphabet {
	if x.Thorough {
		return []*Alphabet{a, a, alphaCore()}
	}
	return []*Alphabet{a, a}
}
