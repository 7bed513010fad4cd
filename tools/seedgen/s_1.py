F='format/'
seed('liquibase-diff-unique-size','C11',{F+'liquibase/diff.go':[("uniqueChanged := !uqSet.Equals(oldUqSet)","uniqueChanged := uqSet.Size() != oldUqSet.Size()")]},
 "a table whose unique columns change while their number stays the same (uniqueness moves from one column to another)",
 "the liquibase diff leaves the old unique constraint in place, so the migrated database does not have the new schema",
'''
cat > a.json <<'E'
{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"a","type":"int32","unique":true},{"name":"b","type":"int32"}]}]}
E
cat > b.json <<'E'
{"version":"2","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"a","type":"int32"},{"name":"b","type":"int32","unique":true}]}]}
E
"$OCT" diff liquibase -f a.json -t b.json -o o.yaml || exit 1
grep -q 'dropUniqueConstraint' o.yaml && grep -A3 addUniqueConstraint o.yaml | grep -q 'columnNames: b'
''')
seed('diff-rename-greedy','C12',{F+'diff/diff.go':[("""					renamedTableMap[addedTable] = removedTable
					removedTableNames.Remove(removedTableName)
					break
""","""					renamedTableMap[addedTable] = removedTable
					removedTableNames.Remove(removedTableName)
""")]},
 "two removed tables with the same columns and one added table with those columns",
 "the second removed table disappears from the diff: it is neither reported as dropped nor as renamed",
'''
C='"columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"v","type":"varchar","size":10}]'
echo '{"version":"1","tables":[{"name":"a",'"$C"'},{"name":"b",'"$C"'},{"name":"k",'"$C"'}]}' > a.json
echo '{"version":"2","tables":[{"name":"c",'"$C"'},{"name":"k",'"$C"'}]}' > b.json
"$OCT" diff md -f a.json -t b.json -o o.md || exit 1
[ "$(grep -c 'drop table' o.md)" = 1 ] && [ "$(grep -c 'rename table' o.md)" = 1 ]
''')
seed('mysql-autoinc-only-pk','C03',{F+'mysql/exporter.go':[("	if column.AutoIncremental {\n","	if column.AutoIncremental && column.PrimaryKey {\n")]},
 "an auto-incremental column that is not (part of) the primary key, e.g. a unique sequence column",
 "AUTO_INCREMENT is left out of the exported DDL for it",
'''
cat > a.json <<'E'
{"tables":[{"name":"t","columns":[{"name":"code","type":"varchar","size":10,"pk":true,"notnull":true},{"name":"seq","type":"int64","unique":true,"notnull":true,"autoinc":true}]}]}
E
"$OCT" export mysql -i a.json -o o.sql || exit 1
grep -E '^ *seq ' o.sql | grep -qi auto_increment
''')
seed('mysql-import-unique-leak','C04',{F+'mysql/importer.go':[("	ExcludeSet *util.StringSet\n","	ExcludeSet *util.StringSet\n	uniqSet    *util.StringSet\n"),
  ("		ExcludeSet: util.NewStringSet(c.option.Excludes...),\n","		ExcludeSet: util.NewStringSet(c.option.Excludes...),\n		uniqSet:    util.NewStringSet(),\n"),
  ("		uniqSet := util.NewStringSet()\n",""),
  ("					uniqSet.Add(key.Column.Name.L)\n","					x.uniqSet.Add(key.Column.Name.L)\n"),
  ("x.column(colDef, pkSet, uniqSet)","x.column(colDef, pkSet, x.uniqSet)")]},
 "a DDL file with two tables where a column of the second has the name of a unique column of the first",
 "the column of the later table is imported as unique although its DDL does not say so",
'''
cat > a.sql <<'E'
CREATE TABLE a (id bigint NOT NULL, name varchar(10), PRIMARY KEY (id), UNIQUE KEY a_uq (name));
CREATE TABLE b (id bigint NOT NULL, name varchar(10), PRIMARY KEY (id));
E
"$OCT" import mysql -i a.sql -o o.json || exit 1
python3 - <<'E'
import json
t={x['name']:x for x in json.load(open('o.json'))['tables']}
u=lambda n:[c['name'] for c in t[n]['columns'] if c.get('unique')]
assert u('a')==['name'] and u('b')==[], (u('a'),u('b'))
E
''')
seed('xlsx-null-header-sticky','C07',{F+'xlsx/importer.go':[("		groupTables, err := readGroupSheet(groupName, sheet)","		groupTables, err := c.readGroupSheet(groupName, sheet)"),
  ("func readGroupSheet(groupName string","func (c *Importer) readGroupSheet(groupName string"),
  ("	useNotNullColumn := false\n",""),
  ("				useNotNullColumn = true","				c.useNotNullColumn = true"),
  ("util.IfThenElseBool(useNotNullColumn,","util.IfThenElseBool(c.useNotNullColumn,")]},
 "a workbook whose group sheets use different headers for the null column ('not null' in one and 'nullable' in another)",
 "once a sheet with the 'not null' header has been read, the sheets read after it are interpreted the same way, so NOT NULL is inverted there",
'''
cat > a.json <<'E'
{"tables":[{"name":"a","group":"g1","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"v","type":"int32"}]}]}
E
sed 's/g1/g2/; s/"a"/"b"/' a.json > b.json
"$OCT" export xlsx -i a.json -o a.xlsx && "$OCT" export xlsx --useNullColumn -i b.json -o b.xlsx || exit 1
python3 - <<'E' || exit 1
import zipfile,re
a=zipfile.ZipFile('a.xlsx'); b=zipfile.ZipFile('b.xlsx')
# put the group sheet of b.xlsx into a.xlsx as a third sheet, with inline strings
def strings(z):
    x=z.read('xl/sharedStrings.xml').decode()
    return [re.sub('<[^>]+>','',s) for s in re.findall(r'<si>(.*?)</si>',x,re.S)]
sb=strings(b)
sheet=b.read('xl/worksheets/sheet2.xml').decode()
def rep(m):
    return m.group(1).replace('t="s"','t="inlineStr"')+'<is><t>'+sb[int(m.group(2))]+'</t></is></c>'
sheet=re.sub(r'(<c [^>]*t="s"[^>]*>)(?:<f>[^<]*</f>|<f/>)?<v>(\\d+)</v></c>',rep,sheet)
o=zipfile.ZipFile('m.xlsx','w',zipfile.ZIP_DEFLATED)
for n in a.namelist():
    d=a.read(n).decode()
    if n=='[Content_Types].xml':
        m=re.search(r'<Override[^>]*sheet2.xml[^>]*>(?:</Override>)?',d).group(0)
        d=d.replace(m,m+m.replace('sheet2.xml','sheet3.xml'))
    if n=='xl/_rels/workbook.xml.rels':
        m=re.search(r'<Relationship [^>]*sheet2.xml[^>]*>(?:</Relationship>)?',d).group(0)
        r=re.sub(r'Id="[^"]*"','Id="rId99"',m).replace('sheet2.xml','sheet3.xml')
        d=d.replace(m,m+r)
    if n=='xl/workbook.xml':
        m=re.search(r'<sheet [^>]*name="g1"[^>]*>(?:</sheet>)?',d).group(0)
        r=m.replace('name="g1"','name="g2"'); r=re.sub(r'sheetId="\\d+"','sheetId="99"',r); r=re.sub(r'r?:?id="rId\\d+"|id="rId\\d+"',lambda k:re.sub(r'rId\\d+','rId99',k.group(0)),r)
        d=d.replace(m,m+r)
    o.writestr(n,d)
o.writestr('xl/worksheets/sheet3.xml',sheet)
o.close()
E
for k in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16; do
"$OCT" import xlsx -i m.xlsx -o o.json || exit 1
python3 - <<'E' || exit 1
import json
t={x['name']:x for x in json.load(open('o.json'))['tables']}
for n in 'ab':
    assert [bool(c.get('notnull')) for c in t[n]['columns']]==[True,False], (n,t[n])
E
done
''')
seed('filter-case-insensitive','C14',{F+'octopus/filter.go':[("			if table.Group == group {","			if strings.EqualFold(table.Group, group) {")]},
 "two groups whose names differ only in letter case and a --groups option naming one of them",
 "the tables of the other group are selected as well",
'''
cat > a.json <<'E'
{"tables":[{"name":"a","group":"Common","columns":[{"name":"id","type":"int64"}]},{"name":"b","group":"common","columns":[{"name":"id","type":"int64"}]}]}
E
"$OCT" export mysql -g Common -i a.json -o o.sql || exit 1
[ "$(grep -c 'CREATE TABLE' o.sql)" = 1 ]
''')
seed('gorm-import-first-embed','C17',{F+'gorm/generator.go':[('''		for _, modelName := range goStruct.EmbeddedModelNames {
			if modelName == "gorm.Model" {
				importSet.Add("github.com/jinzhu/gorm")
			}
		}
''','''		if names := goStruct.EmbeddedModelNames; len(names) > 0 && names[0] == "gorm.Model" {
			importSet.Add("github.com/jinzhu/gorm")
		}
''')]},
 "an --embed option that names a model sorting before gorm.Model, and no table which embeds gorm.Model alone",
 "the generated file uses gorm.Model without importing gorm, so it does not compile",
'''
cat > a.json <<'E'
{"tables":[{"name":"user","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"created_at","type":"datetime"},{"name":"updated_at","type":"datetime"},{"name":"deleted_at","type":"datetime"},{"name":"lat","type":"double","notnull":true},{"name":"lng","type":"double","notnull":true},{"name":"x","type":"int32","notnull":true}]}]}
E
"$OCT" generate gorm -e Geo:lat,lng -i a.json -o o.go || exit 1
grep -q 'gorm.Model' o.go && grep -q 'jinzhu/gorm' o.go
''')
seed('pb-tag-overlap','C21',{F+'protobuf/generator.go':[("		if minStartTag <= maxTag {","		if minStartTag < maxTag {")]},
 "decreasing relation tags whose last tag equals the tag of the last column",
 "a relation field gets the number of a column field: the message is not valid protobuf",
'''
cat > a.json <<'E'
{"tables":[{"name":"a","columns":[{"name":"id","type":"int64"}]},{"name":"b","columns":[{"name":"id","type":"int64"}]},
{"name":"t","columns":[{"name":"id","type":"int64"},{"name":"a_id","type":"int64","ref":{"table":"a","column":"id","relationship":"n:1"}},{"name":"b_id","type":"int64","ref":{"table":"b","column":"id","relationship":"n:1"}}]}]}
E
for s in 3 4 5 6; do
"$OCT" generate pb --relationTagStart $s --relationTagDecr -i a.json -o o.proto || exit 1
sed -n '/message T /,/}/p' o.proto | grep -o '= [0-9]*;' | sort | uniq -d | grep -q . && exit 1
done
exit 0
''')
seed('sqlalchemy-tz-import','C22',{F+'sqlalchemy/generator.go':[("""			for _, imp := range field.Imports {
				saImportSet.Add(imp)
			}""","""			for _, imp := range field.Imports {
				// the column type may be TZDateTime
				if imp != "DateTime" || !useTZDateTime {
					saImportSet.Add(imp)
				}
			}""")]},
 "--useUTC and a module whose first datetime column is not created_at or updated_at",
 "the module uses DateTime (in TZDateTime) without importing it and does not load",
'''
cat > a.json <<'E'
{"tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"d","type":"datetime"}]},{"name":"b","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}]}
E
"$OCT" generate sqlalchemy --useUTC -i a.json -o out || exit 1
for f in out/*.py; do
  if grep -q 'impl = DateTime' $f; then grep -Eq 'import.*[ ,]DateTime' $f || exit 1; fi
done
grep -q TZDateTime out/a.py
''')
seed('plantuml-dedupe-relations','C24',{F+'plantuml/generator.go':[('''				refs = append(refs, fmt.Sprintf("%s %s %s", table.Name, relationship, ref.Table))
''','''				line := fmt.Sprintf("%s %s %s", table.Name, relationship, ref.Table)
				if !strings.Contains(strings.Join(refs, "\\n"), line) {
					refs = append(refs, line)
				}
''')]},
 "a table whose relation to a table is preceded by one of another table to a table with a longer name, such that its line is part of the other line (order -> user after my_order -> user_role)",
 "the relation is missing from the diagram",
'''
R='"relationship":"n:1"'
cat > a.json <<E
{"tables":[{"name":"a_order","columns":[{"name":"id","type":"int64"},{"name":"r","type":"int64","ref":{"table":"user_role","column":"id",$R}}]},
{"name":"order","columns":[{"name":"id","type":"int64"},{"name":"u","type":"int64","ref":{"table":"user","column":"id",$R}}]},
{"name":"user","columns":[{"name":"id","type":"int64"}]},{"name":"user_role","columns":[{"name":"id","type":"int64"}]}]}
E
"$OCT" generate plantuml -i a.json -o o.puml || exit 1
grep -Eq '^order +[^ ]+ +user$' o.puml
''')
seed('staruml-size-precedence','C09',{F+'staruml/importer.go':[("			if size == 0 {\n				size = colSize\n			}","			if colSize > 0 {\n				size = colSize\n			}")]},
 "a StarUML column with a length that differs from the size written in its type",
 "the length of the column is ignored",
'''
cat > a.mdj <<'E'
{"_type":"Project","_id":"p","name":"1.0","ownedElements":[{"_type":"ERDDataModel","_id":"m","ownedElements":[{"_type":"ERDEntity","_id":"e","name":"t","columns":[{"_type":"ERDColumn","_id":"c","_parent":{"$ref":"e"},"name":"v","type":"varchar(10)","length":"20"}]}]}]}
E
"$OCT" import staruml -i a.mdj -o o.json || exit 1
python3 -c "
import json
c=json.load(open('o.json'))['tables'][0]['columns'][0]
assert c['type']=='varchar' and c['size']==20, c"
''')
seed('mysql-export-empty-table','C27',{F+'mysql/exporter.go':[('''	for i, definition := range definitions {
		if i < len(definitions)-1 {
			definitions[i] = definition + ","
		}
	}
''','''	last := definitions[len(definitions)-1]
	for i, definition := range definitions {
		definitions[i] = definition + ","
	}
	definitions[len(definitions)-1] = last
''')]},
 "a schema with a table that has no columns",
 "mysql export (and the flyway diff that adds such a table) panics on a valid schema",
'''
echo '{"tables":[{"name":"a","columns":[{"name":"id","type":"int64"}]},{"name":"b"}]}' > a.json
"$OCT" export mysql -i a.json -o o.sql
''')
seed('writefile-unflushed','C28',{'util/io.go':[('''	if err := ioutil.WriteFile(filename, []byte(strings.Join(lines, "\\n")), 0644); err != nil {
		return err
	}
''','''	file, err := os.Create(filename)
	if err != nil {
		return err
	}
	defer file.Close()
	w := bufio.NewWriter(file)
	defer w.Flush()
	for i, line := range lines {
		if i > 0 {
			line = "\\n" + line
		}
		if _, err := w.WriteString(line); err != nil {
			return err
		}
	}
'''),('import (\n','import (\n	"bufio"\n')]},
 "a write error (full disk) on the last 4 KiB of a generated sqlalchemy file",
 "the error of the final flush is dropped: the command reports success although the file is incomplete",
'''
echo '{"tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}]}' > a.json
mkdir out && ln -s /dev/full out/a.py || exit 2
"$OCT" generate sqlalchemy -i a.json -o out && exit 1
exit 0
''')
seed('tofile-no-truncate','C29',{F+'octopus/table.go':[('''	return ioutil.WriteFile(filename, data, 0644)
}

func (s *Schema) ToJson''','''	file, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	if _, err := file.Write(data); err != nil {
		file.Close()
		return err
	}
	return file.Close()
}

func (s *Schema) ToJson'''),('	"io/ioutil"\n','	"io/ioutil"\n	"os"\n')]},
 "importing over an existing, longer schema file",
 "the tail of the old file stays behind the new schema: the result depends on what was there before and is not JSON",
'''
cat > a.sql <<'E'
CREATE TABLE a (id bigint NOT NULL, name varchar(10), PRIMARY KEY (id));
E
"$OCT" import mysql -i a.sql -o o.json || exit 1
cp o.json p.json; (cat o.json; head -c 500 /dev/zero | tr '\\0' x) > q.json
"$OCT" import mysql -i a.sql -o q.json || exit 1
cmp -s p.json q.json
''')
seed('liquibase-diff-drop-order','C15',{F+'liquibase/diff.go':[('''	for _, tableName := range removedTableNames.Slice() {
		id.bumpMajor()
''','''	for tableName := range fromTableByName {
		if !removedTableNames.Contains(tableName) {
			continue
		}
		id.bumpMajor()
''')]},
 "two or more tables dropped by one liquibase diff",
 "the order (and ids) of the drop change sets follows Go map order and differs from run to run",
'''
C='"columns":[{"name":"id","type":"int64","pk":true,"notnull":true},'
s='{"version":"1","tables":['
for i in a b c d e f g h; do s="$s"'{"name":"'$i'",'"$C"'{"name":"'$i'","type":"int32"}]},'; done
echo "${s%,}]}" > a.json
echo '{"version":"2","tables":[]}' > b.json
for k in 1 2 3 4 5 6 7 8; do "$OCT" diff liquibase -f a.json -t b.json -o o$k.yaml || exit 1; cmp -s o1.yaml o$k.yaml || exit 1; done
''')
seed('normalize-last-error','C02',{F+'octopus/table.go':[('''	for _, table := range s.Tables {
		for _, column := range table.Columns {
			column.NormalizeType()

			if err := column.Validate(true); err != nil {
				return fmt.Errorf("table: '%s': %w", table.Name, err)
			}
		}
	}
	return nil
''','''	for _, table := range s.Tables {
		var err error
		for _, column := range table.Columns {
			column.NormalizeType()
			err = column.Validate(true)
		}
		if err != nil {
			return fmt.Errorf("table: '%s': %w", table.Name, err)
		}
	}
	return nil
''')]},
 "an invalid column that is followed by a valid column in its table",
 "the schema is accepted and turned into output",
'''
cat > a.json <<'E'
{"tables":[{"name":"t","columns":[{"name":"id","type":"nonsense"},{"name":"v","type":"int32"}]}]}
E
"$OCT" export mysql -i a.json -o o.sql && exit 1
exit 0
''')
seed('ojson-float-scale','C08',{F+'ojson/importer.go':[('''	return &octopus.Column{
		Name:            column1.Name,''','''	scale := column1.Scale
	if column1.Type == ColTypeFloat {
		scale = 0
	}
	return &octopus.Column{
		Name:            column1.Name,'''),("		Scale:           column1.Scale,\n","		Scale:           scale,\n")]},
 "a float column with a scale",
 "the scale is lost by the import",
'''
echo '{"tables":[{"name":"t","columns":[{"name":"v","type":"float","size":10,"scale":3}]}]}' > a.ojson
"$OCT" import ojson -i a.ojson -o o.json || exit 1
grep -q '"scale": 3' o.json
''')
seed('dbml-deferred-direction','C23',{F+'dbml/exporter.go':[('''							table.Name, column.Name, rel, ref.Table, ref.Column),
''','''							table.Name, column.Name, getRelationshipType(&octopus.Reference{Table: ref.Table, Column: ref.Column}), ref.Table, ref.Column),
''')]},
 "a 1:n or 1:1 reference to a table that is exported later",
 "the relation is written as many-to-one",
'''
cat > a.json <<'E'
{"tables":[{"name":"a","columns":[{"name":"id","type":"int64","ref":{"table":"b","column":"a_id","relationship":"1:n"}}]},{"name":"b","columns":[{"name":"a_id","type":"int64"}]}]}
E
"$OCT" export dbml -i a.json -o o.dbml || exit 1
grep -q 'Ref: a.id < b.a_id' o.dbml
''')
seed('xlsx-size-over-32767','C06',{'util/types.go':[("			size, _ = strconv.Atoi(groups[1])","			if n, err := strconv.ParseInt(groups[1], 10, 16); err == nil {\n				size = int(n)\n			}")]},
 "a column with a size above 32767",
 "the size is lost on the way through Excel (the schema model allows sizes up to 65535)",
'''
echo '{"tables":[{"name":"t","columns":[{"name":"v","type":"varchar","size":40000}]}]}' > a.json
"$OCT" export xlsx -i a.json -o o.xlsx && "$OCT" import xlsx -i o.xlsx -o o.json || exit 1
grep -q '"size": 40000' o.json
''')
seed('flyway-pk-partial','C13',{F+'diff/diff.go':[('''	if !pkSet.Equals(oldPkSet) {
		changeSet''','''	if pkSet.Size() != oldPkSet.Size() || !oldPkSet.ContainsAny(pkSet.Slice()) {
		changeSet''')]},
 "a composite primary key of which some, but not all, columns are exchanged",
 "the primary key of the migrated database stays the old one",
'''
K='"type":"int64","notnull":true'
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"a",'$K',"pk":true},{"name":"b",'$K',"pk":true},{"name":"c",'$K'}]}]}' > a.json
echo '{"version":"2","tables":[{"name":"t","columns":[{"name":"a",'$K',"pk":true},{"name":"b",'$K'},{"name":"c",'$K',"pk":true}]}]}' > b.json
"$OCT" diff flyway -f a.json -t b.json -o o.sql || exit 1
tr -d '` ' < o.sql | grep -q 'ADDPRIMARYKEY(a,c)'
''')
seed('graphql-composite-id','C20',{F+'graphql/generator.go':[("	if len(pkFields) == 1 {","	if len(pkFields) > 0 {")]},
 "a table with a composite primary key",
 "the first key column becomes the ID of the type although it alone does not identify a row, and loses its own type",
'''
K='"type":"int64","notnull":true,"pk":true'
echo '{"name":"s","version":"1","tables":[{"name":"t","columns":[{"name":"a",'$K'},{"name":"b",'$K'}]}]}' > a.json
"$OCT" generate graphql -i a.json -o out || exit 1
grep -q 'a: Int!' out/s-1.graphqls
''')
