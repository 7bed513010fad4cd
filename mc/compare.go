package main

import (
	"fmt"
	"reflect"
	"strings"
)

// diffSchemas compares two schemas attribute by attribute. ignore lists the
// attributes outside the property.
func diffSchemas(got, want *Schema, ignore string) []Finding {
	ig := map[string]bool{}
	for _, w := range strings.Fields(ignore) {
		ig[w] = true
	}
	if !ig["meta"] {
		if got.Author != want.Author {
			return finding("author", "author %q, want %q", got.Author, want.Author)
		}
		if got.Version != want.Version {
			return finding("version", "version %q, want %q", got.Version, want.Version)
		}
		if !ig["name"] && got.Name != want.Name {
			return finding("name", "schema name %q, want %q", got.Name, want.Name)
		}
	}
	gn, wn := []string{}, []string{}
	for _, t := range got.Tables {
		gn = append(gn, t.Group+"/"+t.Name)
	}
	for _, t := range want.Tables {
		g := t.Group
		if ig["group"] {
			g = ""
		}
		wn = append(wn, g+"/"+t.Name)
	}
	if !reflect.DeepEqual(gn, wn) {
		return finding("tables", "tables %q, want %q", gn, wn)
	}
	for i, w := range want.Tables {
		g := got.Tables[i]
		if !ig["tdesc"] && g.Desc != w.Desc {
			return finding("table-desc", "%s: description %q, want %q", w.Name, g.Desc, w.Desc)
		}
		if !ig["class"] && g.ClassName != w.ClassName {
			return finding("class-name", "%s: class name %q, want %q", w.Name, g.ClassName, w.ClassName)
		}
		gc, wc := names(g.Columns), names(w.Columns)
		if !reflect.DeepEqual(gc, wc) {
			return finding("columns", "%s: columns %q, want %q", w.Name, gc, wc)
		}
		for j, c := range w.Columns {
			d := g.Columns[j]
			at := w.Name + "." + c.Name
			chk := func(name string, a, b interface{}) []Finding {
				if ig[name] || reflect.DeepEqual(a, b) {
					return nil
				}
				return finding("column-"+name, "%s (%s): %s is %v, want %v", at, c.Type, name, a, b)
			}
			gv, wv := append([]string{}, d.Values...), append([]string{}, c.Values...)
			gr, wr := refStr(d.Ref), refStr(c.Ref)
			for _, f := range [][]Finding{
				chk("type", d.Type, c.Type), chk("size", d.Size, c.Size), chk("scale", d.Scale, c.Scale),
				chk("notnull", d.NotNull, c.NotNull), chk("pk", d.PK, c.PK), chk("unique", d.Unique, c.Unique),
				chk("autoinc", d.AutoInc, c.AutoInc), chk("default", d.Default, c.Default), chk("onupdate", d.OnUpdate, c.OnUpdate),
				chk("desc", d.Desc, c.Desc), chk("values", gv, wv), chk("ref", gr, wr),
			} {
				if f != nil {
					return f
				}
			}
		}
		if !ig["indices"] {
			gi, wi := []string{}, []string{}
			for _, x := range g.Indices {
				gi = append(gi, fmt.Sprintf("%s%q", x.Name, x.Columns))
			}
			for _, x := range w.Indices {
				wi = append(wi, fmt.Sprintf("%s%q", x.Name, x.Columns))
			}
			if !reflect.DeepEqual(gi, wi) {
				return finding("indices", "%s: indices %v, want %v", w.Name, gi, wi)
			}
		}
	}
	return nil
}

func refStr(r *Ref) string {
	if r == nil {
		return "-"
	}
	return r.Table + "." + r.Column + " " + r.Relationship
}
