package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// The abstract state of the system: a schema document. The JSON tags are the
// documented file format (docs/octopus-format.md); this package shares no code
// with the repository.

type Ref struct {
	Table        string `json:"table,omitempty"`
	Column       string `json:"column,omitempty"`
	Relationship string `json:"relationship,omitempty"`
}

type Col struct {
	Name     string   `json:"name"`
	Type     string   `json:"type"`
	Desc     string   `json:"desc,omitempty"`
	Size     int      `json:"size,omitempty"`
	Scale    int      `json:"scale,omitempty"`
	NotNull  bool     `json:"notnull,omitempty"`
	PK       bool     `json:"pk,omitempty"`
	Unique   bool     `json:"unique,omitempty"`
	AutoInc  bool     `json:"autoinc,omitempty"`
	Default  string   `json:"default,omitempty"`
	OnUpdate string   `json:"onupdate,omitempty"`
	Values   []string `json:"values,omitempty"`
	Ref      *Ref     `json:"ref,omitempty"`
}

type Index struct {
	Name    string   `json:"name"`
	Columns []string `json:"columns"`
}

type Table struct {
	Name      string   `json:"name,omitempty"`
	Columns   []*Col   `json:"columns,omitempty"`
	Desc      string   `json:"desc,omitempty"`
	Group     string   `json:"group,omitempty"`
	ClassName string   `json:"className,omitempty"`
	Indices   []*Index `json:"indices,omitempty"`
}

type Schema struct {
	Author  string   `json:"author,omitempty"`
	Name    string   `json:"name,omitempty"`
	Version string   `json:"version,omitempty"`
	Tables  []*Table `json:"tables,omitempty"`
}

func (c *Col) Clone() *Col {
	d := *c
	if c.Values != nil {
		d.Values = append([]string{}, c.Values...)
	}
	if c.Ref != nil {
		r := *c.Ref
		d.Ref = &r
	}
	return &d
}

func (t *Table) Clone() *Table {
	u := *t
	u.Columns = nil
	for _, c := range t.Columns {
		u.Columns = append(u.Columns, c.Clone())
	}
	u.Indices = nil
	for _, i := range t.Indices {
		u.Indices = append(u.Indices, &Index{Name: i.Name, Columns: append([]string{}, i.Columns...)})
	}
	return &u
}

func (s *Schema) Clone() *Schema {
	n := *s
	n.Tables = nil
	for _, t := range s.Tables {
		n.Tables = append(n.Tables, t.Clone())
	}
	return &n
}

func (s *Schema) Table(name string) *Table {
	for _, t := range s.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}

func (t *Table) Col(name string) *Col {
	for _, c := range t.Columns {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *Table) PKs() []*Col {
	var r []*Col
	for _, c := range t.Columns {
		if c.PK {
			r = append(r, c)
		}
	}
	return r
}

func (t *Table) Uniques() []*Col {
	var r []*Col
	for _, c := range t.Columns {
		if c.Unique {
			r = append(r, c)
		}
	}
	return r
}

func names(cs []*Col) []string {
	r := []string{}
	for _, c := range cs {
		r = append(r, c.Name)
	}
	return r
}

func (s *Schema) JSON() []byte {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return b
}

func (s *Schema) Pretty() []byte {
	b, _ := json.MarshalIndent(s, "", "  ")
	return b
}

type hash [16]byte

func hashOf(b []byte) hash {
	h := sha256.Sum256(b)
	var r hash
	copy(r[:], h[:16])
	return r
}

func parseSchema(b []byte) (*Schema, error) {
	s := &Schema{}
	if err := json.Unmarshal(b, s); err != nil {
		return nil, err
	}
	return s, nil
}

// ---- reference semantics of loading ------------------------------------

var allTypes = []string{"binary", "bit", "blob16", "blob24", "blob32", "blob8", "boolean", "char", "date",
	"datetime", "decimal", "double", "enum", "float", "geometry", "int16", "int24", "int32", "int64", "int8",
	"json", "point", "set", "text16", "text24", "text32", "text8", "time", "varbinary", "varchar", "year"}

var typeAlias = map[string]string{
	"string": "varchar", "tinyint": "int8", "smallint": "int16", "mediumint": "int24", "int": "int32",
	"integer": "int32", "bigint": "int64", "long": "int64", "numeric": "decimal", "real": "double",
	"timestamp": "datetime", "tinyblob": "blob8", "blob": "blob16", "mediumblob": "blob24", "longblob": "blob32",
	"tinytext": "text8", "text": "text16", "mediumtext": "text24", "longtext": "text32",
}

func aliasNames() []string {
	var r []string
	for k := range typeAlias {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var typeSet = func() map[string]bool {
	m := map[string]bool{}
	for _, t := range allTypes {
		m[t] = true
	}
	return m
}()

func canonType(t string) string {
	t = strings.ToLower(t)
	if a, ok := typeAlias[t]; ok {
		return a
	}
	return t
}

func isInt(t string) bool {
	switch t {
	case "int8", "int16", "int24", "int32", "int64":
		return true
	}
	return false
}
func isDec(t string) bool  { return t == "float" || t == "double" || t == "decimal" }
func isText(t string) bool { return strings.HasPrefix(t, "text") }
func isBlob(t string) bool { return strings.HasPrefix(t, "blob") }
func isNumeric(t string) bool {
	return isInt(t) || isDec(t)
}

// Norm is the documented meaning of a schema file after loading.
func Norm(s *Schema) *Schema {
	n := s.Clone()
	sort.SliceStable(n.Tables, func(i, j int) bool {
		if n.Tables[i].Group != n.Tables[j].Group {
			return n.Tables[i].Group < n.Tables[j].Group
		}
		return n.Tables[i].Name < n.Tables[j].Name
	})
	for _, t := range n.Tables {
		for _, c := range t.Columns {
			c.Type = canonType(c.Type)
			if !isInt(c.Type) {
				c.AutoInc = false
			}
		}
	}
	return n
}

// Valid says whether the schema must be accepted.
func Valid(s *Schema) error {
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			ct := canonType(c.Type)
			if c.Name == "" {
				return fmt.Errorf("empty column name")
			}
			if !typeSet[ct] {
				return fmt.Errorf("bad type %q", c.Type)
			}
			if ct == "enum" && len(c.Values) == 0 {
				return fmt.Errorf("empty enum")
			}
			if ct == "set" && (len(c.Values) == 0 || len(c.Values) > 64) {
				return fmt.Errorf("bad set size")
			}
		}
	}
	return nil
}

// Filter keeps the tables of the named groups (nil = all).
func Filter(s *Schema, groups []string) *Schema {
	if groups == nil {
		return s
	}
	n := s.Clone()
	n.Tables = nil
	for _, t := range s.Tables {
		for _, g := range groups {
			if t.Group == g {
				n.Tables = append(n.Tables, t.Clone())
				break
			}
		}
	}
	return n
}

// uniqueNames says that table names are distinct and column names are distinct per table.
func uniqueNames(s *Schema) bool {
	ts := map[string]bool{}
	for _, t := range s.Tables {
		if t.Name == "" || ts[t.Name] {
			return false
		}
		ts[t.Name] = true
		cs := map[string]bool{}
		for _, c := range t.Columns {
			if c.Name == "" || cs[c.Name] {
				return false
			}
			cs[c.Name] = true
		}
	}
	return true
}

func fnDefault(d string) (string, bool) {
	if strings.HasPrefix(d, "fn::") {
		return d[4:], true
	}
	return d, false
}
