package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
)

// An independent minimal workbook reader and writer.

type sheetData struct {
	Name string
	Rows [][]string
}

func xmlEsc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func colName(i int) string {
	s := ""
	for i >= 0 {
		s = string(rune('A'+i%26)) + s
		i = i/26 - 1
	}
	return s
}

// writeXlsx builds a workbook; inline selects inline strings over shared ones.
func writeXlsx(sheets []sheetData, inline bool) []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	put := func(name, data string) {
		w, _ := z.Create(name)
		io.WriteString(w, `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`+"\n"+data)
	}
	var shared []string
	idx := map[string]int{}
	ct := `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/>`
	wb := `<workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"><sheets>`
	rel := `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">`
	for i, sh := range sheets {
		var b strings.Builder
		b.WriteString(`<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><sheetData>`)
		for ri, row := range sh.Rows {
			fmt.Fprintf(&b, `<row r="%d">`, ri+1)
			for ci, v := range row {
				ref := fmt.Sprintf("%s%d", colName(ci), ri+1)
				if v == "" {
					fmt.Fprintf(&b, `<c r="%s"/>`, ref)
				} else if inline {
					fmt.Fprintf(&b, `<c r="%s" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>`, ref, xmlEsc(v))
				} else {
					k, ok := idx[v]
					if !ok {
						k = len(shared)
						idx[v] = k
						shared = append(shared, v)
					}
					fmt.Fprintf(&b, `<c r="%s" t="s"><v>%d</v></c>`, ref, k)
				}
			}
			b.WriteString(`</row>`)
		}
		b.WriteString(`</sheetData></worksheet>`)
		put(fmt.Sprintf("xl/worksheets/sheet%d.xml", i+1), b.String())
		ct += fmt.Sprintf(`<Override PartName="/xl/worksheets/sheet%d.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/>`, i+1)
		wb += fmt.Sprintf(`<sheet name="%s" sheetId="%d" r:id="rId%d"/>`, xmlEsc(sh.Name), i+1, i+1)
		rel += fmt.Sprintf(`<Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="worksheets/sheet%d.xml"/>`, i+1, i+1)
	}
	n := len(sheets)
	rel += fmt.Sprintf(`<Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings" Target="sharedStrings.xml"/></Relationships>`, n+1)
	ss := fmt.Sprintf(`<sst xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" count="%d" uniqueCount="%d">`, len(shared), len(shared))
	for _, s := range shared {
		ss += `<si><t xml:space="preserve">` + xmlEsc(s) + `</t></si>`
	}
	put("xl/sharedStrings.xml", ss+`</sst>`)
	put("xl/workbook.xml", wb+`</sheets></workbook>`)
	put("xl/_rels/workbook.xml.rels", rel)
	put("_rels/.rels", `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>`)
	put("[Content_Types].xml", ct+`<Override PartName="/xl/sharedStrings.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"/></Types>`)
	z.Close()
	return buf.Bytes()
}

func readXlsx(data []byte) ([]sheetData, error) {
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, err
	}
	get := func(name string, v interface{}) error {
		for _, f := range z.File {
			if f.Name == name {
				rc, err := f.Open()
				if err != nil {
					return err
				}
				defer rc.Close()
				return xml.NewDecoder(rc).Decode(v)
			}
		}
		return fmt.Errorf("no %s", name)
	}
	type text struct {
		T string `xml:"t"`
		R []struct {
			T string `xml:"t"`
		} `xml:"r"`
	}
	full := func(t text) string {
		s := t.T
		for _, r := range t.R {
			s += r.T
		}
		return s
	}
	var sst struct {
		SI []text `xml:"si"`
	}
	get("xl/sharedStrings.xml", &sst)
	var wb struct {
		Sheets []struct {
			Name string `xml:"name,attr"`
			ID   string `xml:"http://schemas.openxmlformats.org/officeDocument/2006/relationships id,attr"`
		} `xml:"sheets>sheet"`
	}
	if err := get("xl/workbook.xml", &wb); err != nil {
		return nil, err
	}
	var rels struct {
		R []struct {
			Id     string `xml:"Id,attr"`
			Target string `xml:"Target,attr"`
		} `xml:"Relationship"`
	}
	if err := get("xl/_rels/workbook.xml.rels", &rels); err != nil {
		return nil, err
	}
	var out []sheetData
	for _, s := range wb.Sheets {
		tgt := ""
		for _, r := range rels.R {
			if r.Id == s.ID {
				tgt = r.Target
			}
		}
		var ws struct {
			Rows []struct {
				R int `xml:"r,attr"`
				C []struct {
					R string `xml:"r,attr"`
					T string `xml:"t,attr"`
					V string `xml:"v"`
					I text   `xml:"is"`
				} `xml:"c"`
			} `xml:"sheetData>row"`
		}
		p := path.Join("xl", tgt)
		if strings.HasPrefix(tgt, "/") {
			p = tgt[1:]
		}
		if err := get(p, &ws); err != nil {
			return nil, err
		}
		sd := sheetData{Name: s.Name}
		for _, r := range ws.Rows {
			for len(sd.Rows) < r.R-1 {
				sd.Rows = append(sd.Rows, nil)
			}
			var row []string
			for _, c := range r.C {
				col := 0
				for _, ch := range c.R {
					if ch >= 'A' && ch <= 'Z' {
						col = col*26 + int(ch-'A') + 1
					}
				}
				if col == 0 {
					col = len(row) + 1
				}
				for len(row) < col {
					row = append(row, "")
				}
				v := c.V
				switch c.T {
				case "s":
					if c.V == "" {
						break
					}
					var k int
					fmt.Sscanf(c.V, "%d", &k)
					if k < 0 || k >= len(sst.SI) {
						return nil, fmt.Errorf("bad shared string %q", c.V)
					}
					v = full(sst.SI[k])
				case "inlineStr":
					v = full(c.I)
				}
				row[col-1] = v
			}
			sd.Rows = append(sd.Rows, row)
		}
		out = append(out, sd)
	}
	return out, nil
}

// xlsxText is the cell content of a workbook in a comparable form.
func xlsxText(data []byte) (string, error) {
	sh, err := readXlsx(data)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	for _, s := range sh {
		fmt.Fprintf(&b, "[%s]\n", s.Name)
		for _, r := range s.Rows {
			fmt.Fprintf(&b, "%q\n", r)
		}
	}
	return b.String(), nil
}

var _ = sort.Strings
