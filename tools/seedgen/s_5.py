seed('mysql-time-default-zero','C03',{F+'mysql/exporter.go':[("""value[0] >= '0' && value[0] <= '9'""","""value[0] > '0' && value[0] <= '9'""")]},
 "a date or time column whose default value begins with a zero",
 "the default value is written without quotes and the script is not valid SQL",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"time","default":"00:30:00"}]}]}' > a.json
"$OCT" export mysql -i a.json -o o.sql || exit 1
grep -q "'00:30:00'" o.sql
''')
seed('mysql-scale-equals-size','C03',{F+'mysql/exporter.go':[("""		if col.Scale > 0 {
			return fmt.Sprintf("%s(%d,%d)", colType, col.Size, col.Scale)""","""		if col.Scale > 0 && col.Scale < col.Size {
			return fmt.Sprintf("%s(%d,%d)", colType, col.Size, col.Scale)""")]},
 "a decimal column whose scale equals its size",
 "the scale gets lost in the script",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"decimal","size":4,"scale":4}]}]}' > a.json
"$OCT" export mysql -i a.json -o o.sql || exit 1
tr -d ' ' < o.sql | grep -qi 'decimal(4,4)'
''')
seed('sametype-values-joined','C11',{F+'octopus/column.go':[("""	for i, value := range c.Values {
		if value != target.Values[i] {
			return false
		}
	}
	return true""","""	return strings.Join(c.Values, ",") == strings.Join(target.Values, ",")""")]},
 "an enum column whose values contain a comma, and change from [x,y][z] to [x][y,z]",
 "the diff does not change the values of the column",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"e","type":"enum","values":[%s]}]}]}'
printf "$T" '"x,y","z"' > a.json; printf "$T" '"x","y,z"' > b.json
"$OCT" diff liquibase -f a.json -t b.json -o o.yaml || exit 1
grep -q changeSet o.yaml
''')
seed('sametype-values-fold','C12',{F+'octopus/column.go':[("""		if value != target.Values[i] {""","""		if !strings.EqualFold(value, target.Values[i]) {""")]},
 "a value of an enum or set column that changes in letter case only",
 "the diff does not report the change",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"e","type":"set","values":[%s]}]}]}'
printf "$T" '"x","y"' > a.json; printf "$T" '"x","Y"' > b.json
"$OCT" diff md -f a.json -t b.json -o o.md || exit 1
grep -q 'change column' o.md
''')
seed('liquibase-int32-default','C10',{F+'liquibase/generator.go':[("""			if num, err := strconv.Atoi(column.DefaultValue); err != nil {
				return nil, err
			} else {
				result.DefaultValueNumeric = &num""","""			if num, err := strconv.ParseInt(column.DefaultValue, 0, 64); err != nil {
				return nil, err
			} else {
				result.DefaultValueNumeric = &num""")]},
 "an integer column whose default value has a leading zero",
 "the default value is read as an octal number",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"int32","default":"010"}]}]}' > a.json
"$OCT" generate liquibase -i a.json -o o.yaml || exit 1
grep -q 'defaultValueNumeric: 10' o.yaml
''')
seed('liquibase-float32-default','C10',{F+'liquibase/generator.go':[("""strconv.ParseFloat(column.DefaultValue, 64)""","""strconv.ParseFloat(column.DefaultValue, 32)""")]},
 "a decimal, float or double default value that has no exact 32-bit representation",
 "the default value in the changelog differs from the schema",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"decimal","size":5,"scale":2,"default":"0.1"}]}]}' > a.json
"$OCT" generate liquibase -i a.json -o o.yaml || exit 1
grep -q 'defaultValueNumeric: 0.1$' o.yaml
''')
seed('graphql-query-third','C20',{F+'graphql/generator.go':[("""		for usedQueryNames.Contains(queryName) {
			queryName""","""		if usedQueryNames.Contains(queryName) {
			queryName""")]},
 "three tables whose query names are the same (a_b, aB, a__b)",
 "two queries have the same name",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a_b","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"c","className":"ABs","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"d","className":"aBs","columns":[{"name":"id","type":"int64","pk":true}]}]}' > a.json
"$OCT" generate graphql -i a.json -o o || exit 1
test -z "$(sed -n '/type Query/,/}/p' o/n-1.graphqls | grep -o '^ *[^ :]*:' | sort | uniq -d)"
''')
seed('graphql-field-third','C20',{F+'graphql/generator.go':[("""		for usedNames.Contains(field.Name) {
			field.Name = field.Name + "_\"""","""		if usedNames.Contains(field.Name) {
			field.Name = field.Name + "_\"""")]},
 "three columns of a table whose camel-case names are the same",
 "two fields of a type have the same name",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a","columns":[{"name":"x_y","type":"int64"},{"name":"xY","type":"int64"},{"name":"x__y","type":"int64"}]}]}' > a.json
"$OCT" generate graphql -i a.json -o o || exit 1
test -z "$(sed -n '/type A /,/}/p' o/n-1.graphqls | grep -o '^ *[^ :]*:' | sort | uniq -d)"
''')
seed('pb-unique-name-third','C21',{F+'protobuf/generator.go':[("""	result := name
	for i := 2; usedNames.Contains(result); i++ {
		result = fmt.Sprintf("%s%d", name, i)
	}
	return result""","""	if usedNames.Contains(name) {
		return name + "2"
	}
	return name""")]},
 "three columns of a table whose camel-case names are the same",
 "two fields of a message have the same name",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"x_y","type":"int64"},{"name":"xY","type":"int64"},{"name":"x__y","type":"int64"}]}]}' > a.json
"$OCT" generate pb -i a.json -o o.proto || exit 1
test -z "$(sed -n '/message A /,/}/p' o.proto | awk '{print $2}' | sort | uniq -d | grep -v '^$')"
''')
seed('sa-tz-class-leak','C22',{F+'sqlalchemy/generator.go':[("""			importSet.Clear()
			useTZDateTime = false""","""			importSet.Clear()""")]},
 "one file per table, --useUTC, a table with a time column and a following table without",
 "the file of the second table declares TZDateTime without importing what it needs",
'''
mkdir o
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true},{"name":"at","type":"datetime"}]},{"name":"b","columns":[{"name":"id","type":"int64","pk":true}]}]}' > a.json
"$OCT" generate sqlalchemy -i a.json -o o --useUTC || exit 1
grep -q TypeDecorator o/b.py && exit 1
exit 0
''')
seed('json-upper-extension','C02',{F+'common/formats.go':[("""	ext := filepath.Ext(filename)
	switch strings.ToLower(ext) {""","""	ext := strings.TrimSuffix(filepath.Ext(filename), "~")
	switch ext {""")]},
 "a schema file whose extension is written in capitals (A.JSON), or a backup file (a.json~)",
 "a valid schema file is rejected, a file of another type accepted",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true}]}]}' > A.JSON
"$OCT" export mysql -i A.JSON -o o.sql
''')
seed('xlsx-ref-onetoone-selfcol','C06',{F+'xlsx/exporter.go':[("""		case octopus.RefOneToOne:
			return fmt.Sprintf("-%s.%s", ref.Table, ref.Column)
		}""","""		case octopus.RefOneToOne:
			if ref.Column != column.Name {
				return fmt.Sprintf("-%s.%s", ref.Table, ref.Column)
			}
		}""")]},
 "a 1:1 reference between columns of the same name (shared primary key)",
 "the reference becomes n:1",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a","group":"g","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"b","group":"g","columns":[{"name":"id","type":"int64","pk":true,"ref":{"table":"a","column":"id","relationship":"1:1"}}]}]}' > a.json
"$OCT" export xlsx -i a.json -o o.xlsx && "$OCT" import xlsx -i o.xlsx -o b.json || exit 1
grep -q '1:1' b.json
''')
seed('xlsx-autoinc-with-default','C07',{F+'xlsx/importer.go':[("""		attr = strings.TrimSpace(attr)

		tokens""","""		attr = strings.TrimSuffix(strings.TrimSpace(attr), "=true")

		tokens""")]},
 "a boolean column with the default value true",
 "the default value gets lost",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a","group":"g","columns":[{"name":"id","type":"boolean","default":"true"},{"name":"s","type":"varchar","size":9,"default":"x=true"}]}]}' > a.json
"$OCT" export xlsx -i a.json -o o.xlsx && "$OCT" import xlsx -i o.xlsx -o b.json || exit 1
grep -q '"x=true"' b.json
''')
seed('staruml-size-from-type-scale','C09',{F+'staruml/importer.go':[("""			if size == 0 {
				size = colSize
			}""","""			if size == 0 {
				size = colSize
			} else {
				colScale = 0
			}""")]},
 "a StarUML column with a length and a type that names size and scale",
 "the scale gets lost",
'''
cat > a.mdj <<'X'
{"_type":"Project","_id":"p","name":"x","ownedElements":[{"_type":"ERDDataModel","_id":"m","ownedElements":[
{"_type":"ERDEntity","_id":"e1","name":"a","columns":[{"_type":"ERDColumn","_id":"c1","_parent":{"$ref":"e1"},"name":"d","type":"DECIMAL(12,2)","length":"12"}]}]}]}
X
"$OCT" import staruml -i a.mdj -o b.json || exit 1
grep -q '"scale": 2' b.json
''')
seed('staruml-doc-first-line','C09',{F+'staruml/importer.go':[("""strings.TrimSpace(erdColumn.Documentation)""","""strings.TrimSpace(strings.SplitN(erdColumn.Documentation, "\\n\\n", 2)[0])""")]},
 "a StarUML column whose documentation has several paragraphs",
 "the description is cut behind the first paragraph",
'''
cat > a.mdj <<'X'
{"_type":"Project","_id":"p","name":"x","ownedElements":[{"_type":"ERDDataModel","_id":"m","ownedElements":[
{"_type":"ERDEntity","_id":"e1","name":"a","columns":[{"_type":"ERDColumn","_id":"c1","_parent":{"$ref":"e1"},"name":"d","type":"DATE","documentation":"one\\n\\ntwo"}]}]}]}
X
"$OCT" import staruml -i a.mdj -o b.json || exit 1
grep -q 'two' b.json
''')
seed('kt-embed-third','C18',{F+'jpa/kotlin-gen.go':[("""	if octopus.IsColTypeDecimal(column.Type) {
		if column.Size > 0 {""","""	if octopus.IsColTypeDecimal(column.Type) && !column.PrimaryKey {
		if column.Size > 0 {""")]},
 "a decimal column of the primary key",
 "precision and scale get lost",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"decimal","size":12,"scale":2,"pk":true}]}]}' > a.json
"$OCT" generate kt -i a.json -o o || exit 1
cat o/*.kt | grep -q 'precision = 12'
''')
seed('kt-created-at-updatable','C18',{F+'jpa/kotlin-gen.go':[("""	if len(colAttrs) > 0 {
		annotations = append(annotations, fmt.Sprintf("@Column(%s)", strings.Join(colAttrs, ", ")))""","""	if len(colAttrs) > 0 && !(column.PrimaryKey && len(colAttrs) == 1 && column.NotNull) {
		annotations = append(annotations, fmt.Sprintf("@Column(%s)", strings.Join(colAttrs, ", ")))""")]},
 "a not-null primary key column without other column attributes",
 "the not-null attribute of the key gets lost",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}]}' > a.json
"$OCT" generate kt -i a.json -o o || exit 1
cat o/*.kt | grep -q 'nullable = false'
''')
seed('gorm-recursive-visited','C16',{F+'gorm/gorm.go':[("""	if visited.Contains(from.Name) {
		return false
	}
	visited.Add(from.Name)""","""	if visited.Contains(from.Name) || visited.Size() > 2 {
		return false
	}
	visited.Add(from.Name)""")]},
 "a cycle of four or more tables which refer to each other",
 "the generated structs contain each other and do not compile",
'''
echo '{"version":"1","tables":[
{"name":"a","columns":[{"name":"id","type":"int64","pk":true},{"name":"b_id","type":"int64","ref":{"table":"b","column":"id"}}]},
{"name":"b","columns":[{"name":"id","type":"int64","pk":true},{"name":"c_id","type":"int64","ref":{"table":"c","column":"id"}}]},
{"name":"c","columns":[{"name":"id","type":"int64","pk":true},{"name":"d_id","type":"int64","ref":{"table":"d","column":"id"}}]},
{"name":"d","columns":[{"name":"id","type":"int64","pk":true},{"name":"a_id","type":"int64","ref":{"table":"a","column":"id"}}]}]}' > a.json
"$OCT" generate gorm -i a.json -o o.go || exit 1
test $(grep -c '\\*[ABCD] ' o.go) -ge 1
''')
seed('gorm-assoc-name-third','C17',{F+'gorm/gorm.go':[("""				for usedNames.Contains(name) {
					name = name + "_"
				}
				usedNames.Add(name)
				association""","""				usedNames.Add(name)
				association""")]},
 "two references to one table, and a column named like the second association",
 "two fields of the struct have the same name",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"b","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"int64","ref":{"table":"a","column":"id"}},{"name":"y","type":"int64","ref":{"table":"a","column":"id"}},{"name":"a_by_y","type":"int64"}]}]}' > a.json
"$OCT" generate gorm -i a.json -o o.go || exit 1
test -z "$(sed -n '/type B struct/,/}/p' o.go | awk '{print $1}' | sort | uniq -d)"
''')
seed('plantuml-self-ref','C24',{F+'plantuml/generator.go':[("""			if ref := column.Ref; ref != nil {
				relationship""","""			if ref := column.Ref; ref != nil && (ref.Table != table.Name || ref.Column != column.Name || !column.PrimaryKey) {
				relationship""")]},
 "a primary key column which refers to itself",
 "the relation is missing in the diagram",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true,"ref":{"table":"a","column":"id"}}]}]}' > a.json
"$OCT" generate plantuml -i a.json -o o.puml || exit 1
grep -q 'a }o-|| a' o.puml
''')
seed('flyway-notnull-keeps-comment','C13',{F+'diff/mysql.go':[("""	if constraints := b.mysqlExporter.ColumnConstraints(column); constraints != "" {
		sql += " " + constraints
	}
	return []string{sql + ";"}, nil""","""	if constraints := b.mysqlExporter.ColumnConstraints(column); constraints != "" && (column.NotNull || column.Description == "") {
		sql += " " + constraints
	}
	return []string{sql + ";"}, nil""")]},
 "a column with a description and a default value that becomes nullable",
 "the MODIFY statement drops default value and comment of the column",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"int32","desc":"d","default":"5","notnull":%s}]}]}'
printf "$T" true > a.json; printf "$T" false > b.json
"$OCT" diff flyway -f a.json -t b.json -o o.sql || "$OCT" diff mysql -f a.json -t b.json -o o.sql || exit 1
grep -q 'DEFAULT 5' o.sql
''')
seed('stringset-remove-fold','C12',{'util/set.go':[("""func (s *StringSet) Equals(other *StringSet) bool {
	return cmp.Equal(s.valueMap, other.valueMap)""","""func (s *StringSet) Equals(other *StringSet) bool {
	return cmp.Equal(strings.ToLower(s.Join(",")), strings.ToLower(other.Join(",")))""")]},
 "the primary key moves from column a to a column named A of the same table",
 "the diff does not report the change of the key",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"int64","pk":%s},{"name":"A","type":"int64","pk":%s}]}]}'
printf "$T" true false > a.json; printf "$T" false true > b.json
"$OCT" diff md -f a.json -t b.json -o o.md || exit 1
grep -q 'update PK' o.md
''')
seed('liquibase-clob-size','C10',{F+'liquibase/generator.go':[("""	if column.Size > 0 {
		if column.Scale > 0 {
			return fmt.Sprintf("%s(%d,%d)", typ""","""	if column.Size > 0 && typ != "float" {
		if column.Scale > 0 {
			return fmt.Sprintf("%s(%d,%d)", typ""")]},
 "a float column with a size",
 "the size gets lost",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"float","size":7,"scale":3}]}]}' > a.json
"$OCT" generate liquibase -i a.json -o o.yaml || exit 1
grep -q 'float(7,3)' o.yaml
''')
seed('mysql-index-duplicate-cols','C05',{F+'mysql/importer.go':[("""					idxCols = append(idxCols, colName)""","""					if key.Length > 0 && len(cst.Keys) > 1 {
						continue
					}
					idxCols = append(idxCols, colName)""")]},
 "an index of several columns with a prefix length on one of them",
 "the column is missing from the imported index",
'''
echo 'CREATE TABLE t (a int, b varchar(200), KEY k (a, b(10)));' > a.sql
"$OCT" import mysql -i a.sql -o b.json || exit 1
tr -d ' \\n' < b.json | grep -q '"a","b"'
''') if False else None
seed('mysql-import-prefix-column','C04',{F+'mysql/importer.go':[("""					if key.Column == nil {
						continue
					}
					uniqSet.Add(key.Column.Name.L)""","""					if key.Column == nil || key.Length > 0 && len(cst.Keys) > 1 {
						continue
					}
					uniqSet.Add(key.Column.Name.L)""")]},
 "a unique key of several columns with a prefix length on one of them",
 "the column is not unique in the imported schema",
'''
echo 'CREATE TABLE t (a int, b varchar(200), UNIQUE KEY k (a, b(10)));' > a.sql
"$OCT" import mysql -i a.sql -o b.json || exit 1
test $(grep -c '"unique": true' b.json) = 2
''')
seed('mysql-import-default-null-string','C04',{F+'mysql/importer.go':[("""				column.SetDefaultValue(literalValue(colType, colOption.Expr.(ast.ValueExpr).GetValue()))""","""				if value := literalValue(colType, colOption.Expr.(ast.ValueExpr).GetValue()); value != "0" {
					column.SetDefaultValue(value)
				}""")]},
 "a column with the quoted default value '0', as mysqldump writes it",
 "the default value gets lost",
'''
echo "CREATE TABLE t (a int NOT NULL DEFAULT '0');" > a.sql
"$OCT" import mysql -i a.sql -o b.json || exit 1
grep -q '"default": "0"' b.json
''')
