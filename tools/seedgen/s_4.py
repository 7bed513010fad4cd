S1='''
T='{"version":"1","tables":[{"name":"t","columns":%s}]}'
'''
seed('mysql-import-enum-sorted','C04',{F+'mysql/importer.go':[("""	case octopus.ColTypeSet:
		return colDef.Tp.Elems
	}
	return nil""","""	case octopus.ColTypeSet:
		values := util.NewStringSet(colDef.Tp.Elems...)
		return values.Slice()
	}
	return nil""")]},
 "a SET column whose members are not in alphabetical order",
 "the imported members are in another order (numeric values of members change)",
'''
echo "CREATE TABLE t (id int NOT NULL, s set('w','a','m'));" > a.sql
"$OCT" import mysql -i a.sql -o b.json || exit 1
tr -d ' \\n' < b.json | grep -q '"w","a","m"'
''')
seed('ojson-default-blank-size','C08',{F+'ojson/column.go':[("""		if c.Type != ColTypeInt && c.Type != ColTypeLong {""","""		if (c.Type != ColTypeInt && c.Type != ColTypeLong) || c.DefaultValue == "0" {""")]},
 "an auto-incremental column with default value 0",
 "the auto-increment attribute gets lost in the import",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"long","pk":true,"autoinc":true,"default":"0"}]}]}' > a.ojson
"$OCT" import ojson -i a.ojson -o b.json || exit 1
grep -q autoinc b.json
''')
seed('staruml-ref-same-model','C09',{F+'staruml/importer.go':[("""	c.mapById[elem.ID] = elem
""","""	if _, ok := c.mapById[elem.ID]; !ok && (elem.ElemType != "ERDColumn" || elem.Name != "id" || elem.PrimaryKey) {
		c.mapById[elem.ID] = elem
	}
""")]},
 "a reference to a column named id which is not the primary key",
 "the reference gets lost",
'''
cat > a.mdj <<'X'
{"_type":"Project","_id":"p","name":"x","ownedElements":[{"_type":"ERDDataModel","_id":"m","ownedElements":[
{"_type":"ERDEntity","_id":"e1","name":"a","columns":[{"_type":"ERDColumn","_id":"c1","_parent":{"$ref":"e1"},"name":"id","type":"INTEGER","unique":true}]},
{"_type":"ERDEntity","_id":"e2","name":"b","columns":[{"_type":"ERDColumn","_id":"c2","_parent":{"$ref":"e2"},"name":"a_id","type":"INTEGER","referenceTo":{"$ref":"c1"}}]}]}]}
X
"$OCT" import staruml -i a.mdj -o b.json || exit 1
grep -q '"ref"' b.json
''')
seed('graphql-id-notnull','C20',{F+'graphql/generator.go':[("""	if len(pkFields) == 1 {
		pkFields[0].Type = "ID!"
	}""","""	if len(pkFields) == 1 && pkFields[0].Column.Ref == nil {
		pkFields[0].Type = "ID!"
	}""")]},
 "a table whose only primary key column refers to another table",
 "the field of the key is not an ID",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]},{"name":"b","columns":[{"name":"id","type":"int64","pk":true,"notnull":true,"ref":{"table":"a","column":"id","relationship":"1:1"}},{"name":"s","type":"varchar"}]}]}' > a.json
"$OCT" generate graphql -i a.json -o o || exit 1
test $(grep -c 'ID!' o/n-1.graphqls) = 2
''')
seed('pb-decr-boundary','C21',{F+'protobuf/generator.go':[("""		if minStartTag <= maxTag {
			relTagStart""","""		if minStartTag < maxTag {
			relTagStart""")]},
 "decreasing relation tags whose lowest tag is exactly the tag of the last field",
 "a field and a relation have the same tag",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"b","columns":[{"name":"id","type":"int64","pk":true},{"name":"a_id","type":"int64","ref":{"table":"a","column":"id"}}]}]}' > a.json
"$OCT" generate pb -i a.json -o o.proto -s 2 --relationTagDecr || "$OCT" generate pb -i a.json -o o.proto -s 2 -e || exit 1
sed -n '/message B/,/}/p' o.proto | grep -o '= [0-9]*' | sort | uniq -d | grep -q . && exit 1
exit 0
''')
seed('dbml-escape-only-quotes','C23',{F+'dbml/exporter.go':[("""	return strings.NewReplacer("\\\\", "\\\\\\\\", quote, "\\\\"+quote).Replace(s)""","""	if !strings.Contains(s, quote) {
		return s
	}
	return strings.NewReplacer("\\\\", "\\\\\\\\", quote, "\\\\"+quote).Replace(s)"""),("""				if column.NotNull {
				params""","""				if column.NotNull {
				params""")] if False else [("""			if column.UniqueKey {
				params = append(params, "unique")
			}""","""			if column.UniqueKey && !(column.PrimaryKey && column.NotNull) {
				params = append(params, "unique")
			}""")]},
 "a column which is both the primary key and unique, and not null",
 "the unique setting gets lost",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"unique":true,"notnull":true}]}]}' > a.json
"$OCT" export dbml -i a.json -o o.dbml || exit 1
grep -q unique o.dbml
''')
seed('quickdbd-nullable-pk','C24',{F+'quickdbd/exporter.go':[("""	if !col.NotNull {
		params""","""	if !col.NotNull && col.Ref == nil {
		params""")]},
 "a nullable column with a reference",
 "the column is written as not null",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"b","columns":[{"name":"a_id","type":"int64","ref":{"table":"a","column":"id"}}]}]}' > a.json
"$OCT" export quickdbd -i a.json -o o.txt || exit 1
grep -q 'a_id.*NULLABLE' o.txt
''')
seed('validate-set-64','C02',{F+'octopus/column.go':[("""		if memberCount <= 0 || memberCount > 64 {""","""		if memberCount <= 0 || memberCount >= 64 {""")]},
 "a set column with exactly 64 members",
 "a valid schema is rejected",
'''
V=$(seq -s, 1 64 | sed 's/\\([0-9]*\\)/"v\\1"/g')
echo "CREATE TABLE t (id int, s set($(seq -s, 1 64 | sed "s/\\([0-9][0-9]*\\)/'v\\1'/g")));" > a.sql
"$OCT" import mysql -i a.sql -o b.json || exit 1
grep -q '"v64"' b.json
''')
seed('filter-unsorted-groups','C14',{F+'octopus/filter.go':[("""		for _, group := range groupSlice {
			if table.Group == group {
				return true
			}
		}
		return false""","""		i := sort.SearchStrings(groupSlice, table.Group)
		return i < len(groupSlice) && groupSlice[i] == table.Group"""),("""import (
""","""import (
	"sort"
""")]},
 "a group list which is not in alphabetical order",
 "tables of some selected groups are left out",
'''
C='"columns":[{"name":"id","type":"int64","pk":true}]'
echo "{\\"version\\":\\"1\\",\\"tables\\":[{\\"name\\":\\"a\\",\\"group\\":\\"ga\\",$C},{\\"name\\":\\"b\\",\\"group\\":\\"gb\\",$C}]}" > a.json
"$OCT" export mysql -i a.json -o o.sql -g gb,ga || exit 1
test $(grep -c CREATE o.sql) = 2
''')
seed('prefix-default-entry','C30',{F+'common/prefix.go':[("""		if prefix, ok := p.prefixMap[group]; ok {
			return prefix
		}
		return \"\"""","""		if prefix, ok := p.prefixMap[group]; ok {
			return prefix
		}
		return p.prefixMap[\"\"]""")]},
 "a prefix list with an entry for tables without a group, and a table of a group which is not listed",
 "the class of an unlisted group gets the prefix of the ungrouped tables",
'''
C='"columns":[{"name":"id","type":"int64","pk":true}]'
echo "{\\"version\\":\\"1\\",\\"tables\\":[{\\"name\\":\\"aa\\",\\"group\\":\\"ga\\",$C},{\\"name\\":\\"bb\\",$C}]}" > a.json
"$OCT" generate gorm -i a.json -o o.go -p ':N,gb:B' || exit 1
grep -q 'type Aa struct' o.go
''')
seed('writestring-same-size','C29',{'util/io.go':[("""	if err := ioutil.WriteFile(filename, []byte(s), 0644); err != nil {
		return err
	}
	log.Printf("[WRITE] %s", filename)
	return nil
}

func WriteBytesToFile""","""	if info, err := os.Stat(filename); err == nil && info.Size() == int64(len(s)) {
		return nil
	}
	if err := ioutil.WriteFile(filename, []byte(s), 0644); err != nil {
		return err
	}
	log.Printf("[WRITE] %s", filename)
	return nil
}

func WriteBytesToFile"""),("""func Mkdir(dir string) (string, error) {
	if err := os.MkdirAll(dir, 0777); err != nil {""","""func Mkdir(dir string) (string, error) {
	if err := os.MkdirAll(dir, os.ModePerm); err != nil {""")]},
 "an output directory which has a class file of the same size from an earlier run",
 "the old file is kept",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"%s","type":"int64","pk":true}]}]}'
printf "$T" aa > a.json; printf "$T" bb > b.json
"$OCT" generate kt -i a.json -o o && "$OCT" generate kt -i b.json -o o || exit 1
grep -q bb o/T.kt
''')
seed('liquibase-after-renamed','C11',{F+'liquibase/generator.go':[("""				if c == col {
					break
				}
				lastColName = c.Name""","""				if c == col {
					break
				}
				if c.PrimaryKey || len(columns) == 1 {
					lastColName = c.Name
				}""")]},
 "two or more columns are added to a table at once",
 "the added columns do not follow the column they follow in the new schema",
'''
A='{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"s","type":"varchar","size":9}'
echo "{\\"version\\":\\"1\\",\\"tables\\":[{\\"name\\":\\"t\\",\\"columns\\":[$A]}]}" > a.json
echo "{\\"version\\":\\"1\\",\\"tables\\":[{\\"name\\":\\"t\\",\\"columns\\":[$A,{\\"name\\":\\"x\\",\\"type\\":\\"int64\\"},{\\"name\\":\\"y\\",\\"type\\":\\"date\\"}]}]}" > b.json
"$OCT" diff liquibase -f a.json -t b.json -o o.yaml || exit 1
grep -q 'afterColumn: x' o.yaml && grep -q 'afterColumn: s' o.yaml
''')
seed('kt-onetomany-annotation','C19',{F+'jpa/kotlin-gen.go':[("""		if cls.table.Name == tableName {
			return cls.Name""","""		if strings.EqualFold(cls.table.Name, tableName) || cls.Name == tableName {
			return cls.Name""")]},
 "a reference to a table and another table whose class has the name of that table",
 "the relation names the class of another table",
'''
C='"columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]'
echo "{\\"version\\":\\"1\\",\\"tables\\":[{\\"name\\":\\"a\\",\\"className\\":\\"bb\\",$C},{\\"name\\":\\"bb\\",$C},{\\"name\\":\\"c\\",\\"columns\\":[{\\"name\\":\\"id\\",\\"type\\":\\"int64\\",\\"pk\\":true,\\"notnull\\":true},{\\"name\\":\\"b_id\\",\\"type\\":\\"int64\\",\\"ref\\":{\\"table\\":\\"bb\\",\\"column\\":\\"id\\"}}]}]}" > a.json
"$OCT" generate kt -i a.json -o o -l VRelation || exit 1
grep -q 'cls = "Bb"' o/C.kt
''')
seed('gorm-index-priority','C17',{F+'gorm/generator.go':[("""		for i, col := range index.Columns {
			if fieldColumnName == col {""","""		for i, col := range index.Columns {
			if strings.HasPrefix(fieldColumnName, col) {""")]},
 "an index on a column whose name is the beginning of another column's name",
 "a column which is not indexed gets an index tag",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"name","type":"varchar"},{"name":"name_kana","type":"varchar"}],"indices":[{"name":"ix","columns":["name"]}]}]}' > a.json
"$OCT" generate gorm -i a.json -o o.go || exit 1
test $(grep -c 'index:ix' o.go) = 1
''')
seed('plantuml-pk-late','C24',{F+'plantuml/generator.go':[("""	if col.PrimaryKey {
		line += " <<PK>>"
	}
	if col.UniqueKey {
		line += " <<UQ>>"
	}""","""	if col.PrimaryKey {
		line += " <<PK>>"
	} else if col.UniqueKey {
		line += " <<UQ>>"
	}""")]},
 "a primary key column which is also unique",
 "the unique mark gets lost in the diagram",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"unique":true}]}]}' > a.json
"$OCT" generate plantuml -i a.json -o o.puml || exit 1
grep -q UQ o.puml
''')
seed('xlsx-meta-version-sheet','C06',{F+'xlsx/exporter.go':[("""	row = sheet.AddRow()
	addCells(row, []string{xlsxMetaVersion, schema.Version}, style)
	return nil""","""	if schema.Version != schema.Name {
		row = sheet.AddRow()
		addCells(row, []string{xlsxMetaVersion, schema.Version}, style)
	}
	return nil""")]},
 "a schema whose version is its name",
 "the version gets lost",
'''
echo '{"name":"1","version":"1","tables":[{"name":"t","group":"g","columns":[{"name":"u","type":"date"}]}]}' > a.json
"$OCT" export xlsx -i a.json -o o.xlsx && "$OCT" import xlsx -i o.xlsx -o b.json || exit 1
grep -q '"version"' b.json
''')
seed('diff-pk-markdown-order','C12',{F+'diff/diff.go':[("""				if addedColumn.IsRenamed(removedColumn, !useComments) {
					renamedColumnMap[addedColumn] = removedColumn
					removedColumnNameSet.Remove(removedColumnName)
					break
				}""","""				if addedColumn.IsRenamed(removedColumn, !useComments) {
					renamedColumnMap[addedColumn] = removedColumn
					removedColumnNameSet.Remove(removedColumnName)
				}""")]},
 "one column is added and two columns of the same type are removed",
 "a removed column is not reported",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"p","type":"date"},{"name":"q","type":"date"}]}]}' > a.json
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"r","type":"date"}]}]}' > b.json
"$OCT" diff md -f a.json -t b.json -o o.md || exit 1
grep -q 'drop column' o.md
''')

seed('liquibase-pk-swap','C11',{F+'liquibase/diff.go':[("""	oldPkSet := oldTable.PrimaryKeyNameSet()
	if""","""	oldPkSet := pkSet
	if pkDropped || oldTable.PrimaryKeyNameSet().Size() != pkSet.Size() {
		oldPkSet = oldTable.PrimaryKeyNameSet()
	}
	if""")]},
 "the primary key moves to another column of the table",
 "the changelog leaves the primary key as it was",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"int64","pk":%s},{"name":"b","type":"int64","pk":%s}]}]}'
printf "$T" true false > a.json; printf "$T" false true > b.json
"$OCT" diff liquibase -f a.json -t b.json -o o.yaml || exit 1
grep -q addPrimaryKey o.yaml
''')
seed('xlsx-class-same-as-table','C06',{F+'xlsx/exporter.go':[("""util.IfThenElseString(table.ClassName == "", "",""","""util.IfThenElseString(table.ClassName == "" || strings.EqualFold(table.ClassName, table.Name), "",""")]},
 "a table whose class name is its own name in other letter case",
 "the class name gets lost",
'''
echo '{"version":"1","tables":[{"name":"iso","className":"ISO","group":"g","columns":[{"name":"u","type":"date"}]}]}' > a.json
"$OCT" export xlsx -i a.json -o o.xlsx && "$OCT" import xlsx -i o.xlsx -o b.json || exit 1
grep -q '"className"' b.json
''')
