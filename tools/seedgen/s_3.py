seed('liquibase-default-case','C11',{F+'liquibase/diff.go':[("""	if column.DefaultValue != oldColumn.DefaultValue {""","""	if !strings.EqualFold(column.DefaultValue, oldColumn.DefaultValue) {"""),("""	"log"
""","""	"log"
	"strings"
""")]},
 "a default value which changes in letter case only",
 "the changelog misses the changed default value",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"s","type":"varchar","size":9,"default":"%s"}]}]}'
printf "$T" draft > a.json; printf "$T" Draft > b.json
"$OCT" diff liquibase -f a.json -t b.json -o o.yaml || exit 1
grep -q addDefaultValue o.yaml
''')
seed('diff-autoinc-masked','C12',{F+'diff/diff.go':[("""	if column.AutoIncremental != oldColumn.AutoIncremental {""","""	if column.AutoIncremental != oldColumn.AutoIncremental && (column.NotNull == oldColumn.NotNull || column.Type != oldColumn.Type) {""")]},
 "a column whose auto-increment and not-null attributes both change",
 "the change of the auto-increment attribute is not reported",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","unique":true,"notnull":%s,"autoinc":%s},{"name":"s","type":"varchar","size":9}]}]}'
printf "$T" false false > a.json; printf "$T" true true > b.json
"$OCT" diff md -f a.json -t b.json -o o.md || exit 1
grep -q 'auto incremental' o.md
''')
seed('liquibase-rename-unique-drop','C11',{F+'liquibase/diff.go':[("""newDropUniqueConstraint(oldTable, oldTable.Name+uniqueNameSuffix)""","""newDropUniqueConstraint(oldTable, newTable.Name+uniqueNameSuffix)""")]},
 "a renamed table with unique columns",
 "the changelog drops a unique constraint which does not exist",
'''
T='{"version":"1","tables":[{"name":"%s","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"s","type":"varchar","size":9,"unique":true}]}]}'
printf "$T" aa > a.json; printf "$T" bb > b.json
"$OCT" diff liquibase -f a.json -t b.json -o o.yaml -u _uq || exit 1
grep -A4 dropUnique o.yaml | grep -q aa_uq
''')
seed('xlsx-index-prev-table','C07',{F+'xlsx/importer.go':[("""	useNotNullColumn := false
""","""	useNotNullColumn := false
	indexByName := make(map[string]*octopus.Index)
"""),("""			if index := lastTable.IndexByName(indexName); index != nil {
				index.AddColumn(columnName)
			} else {
				lastTable.AddIndex(indexName, columnName)
			}
""","""			if index := indexByName[indexName]; index != nil {
				index.AddColumn(columnName)
			} else {
				lastTable.AddIndex(indexName, columnName)
				indexByName[indexName] = lastTable.IndexByName(indexName)
			}
""")]},
 "two tables of the same group which have indices with the same name",
 "columns of the second index are added to the index of the other table",
'''
C='"columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"s","type":"varchar","size":9}]'
echo "{\\"version\\":\\"1\\",\\"tables\\":[{\\"name\\":\\"a\\",$C,\\"index\\":[{\\"name\\":\\"ix\\",\\"columns\\":[\\"s\\"]}]},{\\"name\\":\\"b\\",$C,\\"index\\":[{\\"name\\":\\"ix\\",\\"columns\\":[\\"s\\"]}]}]}" > a.json
sed 's/"index"/"indices"/g' a.json > a2.json
for f in a.json a2.json; do
"$OCT" export mysql -i $f -o 1.sql || exit 1
grep -q INDEX 1.sql || continue
"$OCT" export xlsx -i $f -o o.xlsx && "$OCT" import xlsx -i o.xlsx -o b.json && "$OCT" export mysql -i b.json -o 2.sql || exit 1
cmp 1.sql 2.sql || exit 1
done
''')
seed('sa-datetime-import-utc','C22',{F+'sqlalchemy/generator.go':[("""				importSet.Add("from datetime import datetime")
""","""				if !useTZDateTime || column.NotNull {
					importSet.Add("from datetime import datetime")
				}
""")]},
 "UTC generation, a nullable created_at column after another datetime column which needs TZDateTime",
 "the module uses datetime without importing it",
'''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"d","type":"datetime"},{"name":"created_at","type":"datetime"}]}]}' > a.json
"$OCT" generate sqlalchemy -i a.json -o o.py --useUTC || exit 1
grep -q 'default=datetime' o.py || exit 1
grep -q '^from datetime import datetime' o.py
''')
seed('kt-last-write-error','C28',{F+'jpa/kotlin-gen.go':[("""		filename := path.Join(entityDir, fmt.Sprintf("%s.kt", class.Name))
		if err := util.WriteStringToFile(filename, buf.String()); err != nil {
			return err
		}
	}

	return nil
""","""		filename := path.Join(entityDir, fmt.Sprintf("%s.kt", class.Name))
		err = util.WriteStringToFile(filename, buf.String())
	}

	return err
""")]},
 "a failing write of an entity file which is not the last one",
 "the command succeeds although a class is not written",
'''
T='{"name":"%s","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"d","type":"datetime"}]}'
printf '{"tables":['"$T,$T,$T"']}' aa bb cc > a.json
mkdir -p out/Bb.kt
if "$OCT" generate kt -i a.json -o out; then exit 1; fi
exit 0
''')
seed('gorm-recursion-depth','C16',{F+'gorm/gorm.go':[("""		if ref := column.Ref; ref != nil && ref.Relationship != octopus.RefOneToMany {
			refTable, refColumn := p.Reference(*ref)
			if refTable != nil && refColumn != nil && isReferenced(table, refTable, p, visited) {
				return true
			}
""","""		if ref := column.Ref; ref != nil && ref.Relationship != octopus.RefOneToMany {
			if refTable, refColumn := p.Reference(*ref); refTable != nil && refColumn != nil {
				return isReferenced(table, refTable, p, visited)
			}
"""),("""	usedNames := util.NewStringSet("TableName")
	for _, field := range fields {
		usedNames.Add(field.Name)
	}
""","""	usedNames := util.NewStringSet("TableName")
	for i := range fields {
		usedNames.Add(fields[i].Name)
	}
"""),("""		if column.PrimaryKey {
			pkFields = append(pkFields, field)
		}
		if column.UniqueKey {
			uniqueFields = append(uniqueFields, field)
		}
""","""		if column.UniqueKey {
			uniqueFields = append(uniqueFields, field)
		}
		if column.PrimaryKey {
			pkFields = append(pkFields, field)
		}
""")]},
 "two tables referring to each other, each by a reference which is not the first one of its table",
 "the generated structs are recursive: they do not compile",
'''
cat > a.json <<'X'
{"tables":[
{"name":"aa","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"d_id","type":"int64","notnull":true,"ref":{"table":"cc","column":"id","relationship":"n:1"}},{"name":"b_id","type":"int64","notnull":true,"ref":{"table":"bb","column":"id","relationship":"n:1"}}]},
{"name":"bb","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"c_id","type":"int64","notnull":true,"ref":{"table":"cc","column":"id","relationship":"n:1"}},{"name":"a_id","type":"int64","notnull":true,"ref":{"table":"aa","column":"id","relationship":"n:1"}}]},
{"name":"cc","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}]}
X
"$OCT" generate gorm -i a.json -o o.go || exit 1
mkdir m && cat > m/go.mod <<'X'
module m
go 1.16
X
sed -e '/^import (/,/^)/d' o.go > m/o.go
cd m && echo 'func main() {}' >> o.go && GOFLAGS=-mod=mod GOTOOLCHAIN=local go vet ./...
''')
seed('kt-class-all-tables','C19',{F+'jpa/kotlin-gen.go':[("""func (c *KtGenerator) getClassNameByTableName(tableName string) string {
	for _, cls := range c.classes {
		if cls.table.Name == tableName {
			return cls.Name
		}
	}
	return ""
""","""func (c *KtGenerator) getClassNameByTableName(tableName string) string {
	for _, table := range c.schema.Tables {
		if table.Name == tableName {
			return NewKotlinClass(table, c.option).Name
		}
	}
	return ""
""")]},
 "VRelation, and a reference to a table of a group which is filtered out",
 "the generated annotation names a class which is not generated",
'''
cat > a.json <<'X'
{"tables":[
{"name":"aa","group":"g1","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"b_id","type":"int64","notnull":true,"ref":{"table":"bb","column":"id","relationship":"n:1"}}]},
{"name":"bb","group":"g2","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}]}
X
"$OCT" generate kt -i a.json -o out --relation VRelation --groups g1 || exit 1
[ -f out/Aa.kt ] || exit 1
! grep -rq 'cls = "Bb"' out
''')
seed('mysql-enum-backslash','C05',{F+'mysql/exporter.go':[("""		return "enum(" + util.QuoteAndJoin(escapeLiterals(col.Values), "'", ", ") + ")"
""","""		return "enum(" + util.QuoteAndJoin(quoteEscaped(col.Values), "'", ", ") + ")"
"""),("""func (c *Exporter) ColumnConstraints(""","""func quoteEscaped(values []string) []string {
	var result []string
	for _, value := range values {
		result = append(result, strings.ReplaceAll(value, "'", "''"))
	}
	return result
}

func (c *Exporter) ColumnConstraints("""),("""	if column.NotNull {
		constraints = append(constraints, "NOT NULL")
	}

	if column.AutoIncremental {
		constraints = append(constraints, "AUTO_INCREMENT")
	}
""","""	if column.NotNull {
		constraints = append(constraints, "NOT NULL")
	}
	if column.AutoIncremental {
		constraints = append(constraints, "AUTO_INCREMENT")
	}
"""),("""	case octopus.ColTypeYear:
		return "year"
	default:
""","""	case octopus.ColTypeYear:
		return c.formatColumnType("year", &octopus.Column{})
	default:
""")]},
 "an enum value with a backslash",
 "the value is changed by exporting to MySQL and importing the script",
'''
cat > a.json <<'X'
{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"e","type":"enum","values":["a\\\\b","c"]}]}]}
X
"$OCT" export mysql -i a.json -o o.sql && "$OCT" import mysql -i o.sql -o b.json || exit 1
grep -q 'a\\\\\\\\b' b.json
''')
seed('gorm-time-import-shared','C16',{F+'gorm/gorm.go':[("""			importSet.Add("time")
			fieldType = "time.Time"
""","""			if columnType != octopus.ColTypeTime || column.DefaultValue == "" {
				importSet.Add("time")
			}
			fieldType = "time.Time"
""")]},
 "a not-null time column with a default value in a schema without other not-null temporal columns",
 "the generated file uses package time without importing it",
'''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"e","type":"time","notnull":true,"default":"10:00:00"}]}]}' > a.json
"$OCT" generate gorm -i a.json -o o.go || exit 1
grep -q 'time\\.Time' o.go || exit 1
grep -q '"time"' o.go
''')
seed('flyway-addcolumn-order','C13',{F+'diff/diff.go':[("""			// added column
			addedColumns = append(addedColumns, column)
			continue
""","""			// added column
			if len(addedColumns) > 1 {
				addedColumns = append([]*octopus.Column{column}, addedColumns...)
			} else {
				addedColumns = append(addedColumns, column)
			}
			continue
""")]},
 "three or more columns added to a table",
 "columns are added in another order than the one of the new schema",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}%s]}]}'
C=',{"name":"c1","type":"int32"},{"name":"c2","type":"int8"},{"name":"c3","type":"int16"}'
printf "$T" '' > a.json; printf "$T" "$C" > b.json
"$OCT" diff flyway -f a.json -t b.json -o o.sql || exit 1
[ "$(grep -o 'c[123]' o.sql | tr -d '\\n')" = c1c2c3 ]
''')
