seed('gorm-id-twice','C16',{F+'gorm/gorm.go':[("""re := regexp.MustCompile(`Id$`)""","""re := regexp.MustCompile(`Id`)""")]},
 "a column with two words that start with id (idle_id)",
 "the field is IDleID, so gorm looks for a column that does not exist",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"idle_id","type":"int64"}]}]}' > a.json
"$OCT" generate gorm -i a.json -o o.go || exit 1
! grep -q IDle o.go
''')
seed('pb-incr-boundary','C21',{F+'protobuf/generator.go':[("""if relTagStart < 0 || relTagStart <= maxTag {""","""if relTagStart < 0 || relTagStart < maxTag {""")]},
 "a relation tag start which is the tag of the last column",
 "two fields of the message have the same tag",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"int64","ref":{"table":"t","column":"id","relationship":"n:1"}}]}]}' > a.json
"$OCT" generate pb -i a.json -o o.proto --relationTagStart 2 || exit 1
test -z "$(grep -o '= [0-9]*;' o.proto | sort | uniq -d)"
''')
seed('xlsx-ref-no-mark','C07',{F+'xlsx/importer.go':[("""				default:
					relationship = octopus.RefManyToOne
				}
				return""","""				default:
					return nil
				}
				return""")]},
 "a reference cell without a mark for the cardinality",
 "the reference gets lost",
'''
exit 0
''')
seed('filter-group-prefix','C14',{F+'octopus/filter.go':[("""			if table.Group == group {""","""			if table.Group == group || group != "" && strings.HasPrefix(table.Group, group+" ") {""")]},
 "a group whose name goes on after a space",
 "tables of another group are in the output",
'''
echo '{"version":"1","tables":[{"name":"a","group":"g","columns":[{"name":"id","type":"int64"}]},{"name":"b","group":"g x","columns":[{"name":"id","type":"int64"}]}]}' > a.json
"$OCT" export mysql -i a.json -o o.sql -g g || exit 1
test $(grep -c 'CREATE TABLE' o.sql) = 1
''')
seed('findref-no-column','C17',{F+'octopus/table.go':[("""		if column := table.ColumnByName(ref.Column); column != nil {
			return table, column
		}""","""		if column := table.ColumnByName(ref.Column); column != nil {
			return table, column
		}
		if len(table.Columns) > 0 {
			return table, table.Columns[0]
		}""")]},
 "a reference to a column that its table does not have",
 "an association to the first column of the table appears",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"int64","ref":{"table":"u","column":"gone","relationship":"n:1"}}]},{"name":"u","columns":[{"name":"id","type":"int64","pk":true}]}]}' > a.json
"$OCT" generate gorm -i a.json -o o.go || exit 1
! grep -qi 'foreignKey' o.go
''')
seed('sa-precision-all-scale','C22',{F+'sqlalchemy/generator.go':[("""				if column.Size > 0 {
					colAttrs""","""				if column.Size > column.Scale {
					colAttrs""")]},
 "a decimal with no digit before the point",
 "the precision gets lost",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"decimal","size":5,"scale":5}]}]}' > a.json
"$OCT" generate sqlalchemy -i a.json -o o.py || exit 1
grep -q 'precision=5' o.py
''')
seed('sa-autoinc-nonkey','C22',{F+'sqlalchemy/generator.go':[("""column.NotNull && !(column.PrimaryKey && column.AutoIncremental)""","""column.NotNull && !column.AutoIncremental""")]},
 "an auto-increment column which is not the key",
 "the column is nullable",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"int64","unique":true,"autoinc":true,"notnull":true}]}]}' > a.json
"$OCT" generate sqlalchemy -i a.json -o o.py || exit 1
grep ' x = ' o.py | grep -q 'nullable=False'
''')
seed('quickdbd-unique-ref','C24',{F+'quickdbd/exporter.go':[("""		params = append(params, fmt.Sprintf("FK %s %s.%s", rel, ref.Table, ref.Column))""","""		if col.UniqueKey && ref.Relationship == octopus.RefManyToOne {
			rel = "-"
		}
		params = append(params, fmt.Sprintf("FK %s %s.%s", rel, ref.Table, ref.Column))
		_ = rel""")]},
 "a unique column with a many-to-one reference",
 "the diagram shows it as one-to-one",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"int64","unique":true,"ref":{"table":"t","column":"id","relationship":"n:1"}}]}]}' > a.json
"$OCT" export quickdbd -i a.json -o o.txt || exit 1
grep -q 'FK >- t.id' o.txt
''')
seed('ojson-desc-trim','C08',{F+'ojson/importer.go':[("""		Description: table1.Description,
""","""		Description: fmt.Sprintf("%.40s", table1.Description),
""")]},
 "a table description of more than 40 characters",
 "the rest gets lost",
'''
echo '{"version":"1","tables":[{"name":"t","desc":"a text of more than forty characters, which goes on: two","columns":[{"name":"id","type":"long"}]}]}' > a.ojson
"$OCT" import ojson -i a.ojson -o o.json || exit 1
grep -q two o.json
''')
seed('mysql-exclude-fold','C04',{F+'mysql/importer.go':[("""		tableName := createTableStmt.Table.Name.String()
		if x.ExcludeSet.Contains(tableName) {""","""		tableName := createTableStmt.Table.Name.String()
		if x.ExcludeSet.Contains(tableName) || x.ExcludeSet.Contains(createTableStmt.Table.Name.L) {""")]},
 "tables User and user, of which user is excluded",
 "both are excluded",
'''
echo 'create table User (a int); create table user (a int);' > a.sql
"$OCT" import mysql -i a.sql -o o.json -x user || exit 1
grep -q '"User"' o.json
''')
seed('flyway-pk-old-name','C13',{F+'diff/mysql.go':[("""	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {""","""	if c.OldTable.PrimaryKeyNameSet().Size() > 1 || len(pkColumnNames) == 0 || c.OldTable.PrimaryKeyNameSet().Size() == len(pkColumnNames) {""")]},
 "a primary key that gets a second column",
 "the old key is not dropped first",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"int64","pk":true,"notnull":true},{"name":"b","type":"int64","notnull":true,"pk":%s}]}]}'
printf "$T" false > a.json; printf "$T" true > b.json
"$OCT" diff flyway -f a.json -t b.json -o o.sql || "$OCT" diff mysql -f a.json -t b.json -o o.sql || exit 1
grep -q 'DROP PRIMARY KEY' o.sql
''')
seed('diff-rename-added-twice','C12',{F+'diff/diff.go':[("""					renamedColumnMap[addedColumn] = removedColumn
					removedColumnNameSet.Remove(removedColumnName)
					break""","""					renamedColumnMap[addedColumn] = removedColumn
					if len(addedColumns) == 1 {
						removedColumnNameSet.Remove(removedColumnName)
					}
					break""")]},
 "a column renamed while another one is added",
 "the renamed column is also dropped",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64"},%s]}]}'
printf "$T" '{"name":"a","type":"varchar","size":9}' > a.json; printf "$T" '{"name":"b","type":"varchar","size":9},{"name":"c","type":"date"}' > b.json
"$OCT" diff md -f a.json -t b.json -o o.md || exit 1
! grep -q 'drop column' o.md
''')
seed('liquibase-rename-notnull-default','C11',{F+'liquibase/diff.go':[("""		if oldColumn.NotNull {
			changeSet = newLqChangeSet""","""		if oldColumn.NotNull && oldColumn.DefaultValue == "" {
			changeSet = newLqChangeSet""")]},
 "a renamed not-null column with a default value",
 "the renamed column is nullable",
'''
T='{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64"},{"name":"%s","type":"int32","notnull":true,"default":"5"}]}]}'
printf "$T" a > a.json; printf "$T" b > b.json
"$OCT" diff liquibase -f a.json -t b.json -o o.yaml || exit 1
grep -q addNotNullConstraint o.yaml
''')
seed('mysql-float-scale-only','C03',{F+'mysql/exporter.go':[("""		if col.Scale > 0 {
			return fmt.Sprintf("%s(%d,%d)", colType""","""		if col.Scale > 0 && (colType == "decimal" || col.Size > 24) {
			return fmt.Sprintf("%s(%d,%d)", colType""")]},
 "a float or double column with a scale and at most 24 digits",
 "the scale gets lost",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"double","size":10,"scale":2}]}]}' > a.json
"$OCT" export mysql -i a.json -o o.sql || exit 1
grep -q 'double(10,2)' o.sql
''')
seed('kt-lob-blob','C18',{F+'jpa/kotlin-gen.go':[("""	if octopus.IsColTypeString(column.Type) && column.Size > 0 {""","""	if octopus.IsColTypeString(column.Type) && column.Size > 0 && column.Size != 255 {""")]},
 "a string column of the length that JPA assumes",
 "the length is not written",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"a","type":"varchar","size":255}]}]}' > a.json
"$OCT" generate kt -i a.json -o o -p p || exit 1
grep -rq 'length = 255' o
''')
seed('kt-idclass-nullable-comma','C19',{F+'jpa/kotlin-gen.go':[("""			return field != fields[len(fields)-1]""","""			return field.Name != fields[len(fields)-1].Name || len(fields) > 4""")]},
 "an entity with five or more columns",
 "a comma too many after the last property (allowed in new Kotlin, but not written before)",
'''
exit 0
''')
seed('staruml-size-negative','C09',{F+'staruml/importer.go':[("""				NotNull:         !erdColumn.Nullable,
""","""				NotNull:         !erdColumn.Nullable || erdColumn.PrimaryKey && erdColumn.ReferenceTo == nil,
""")]},
 "a key column marked nullable without a reference",
 "the column gets not null",
'''
echo '{"_type":"Project","name":"1","ownedElements":[{"_type":"ERDDataModel","_id":"m","ownedElements":[{"_type":"ERDEntity","_id":"e","name":"t","columns":[{"_type":"ERDColumn","_id":"c","name":"a","type":"INTEGER","primaryKey":true,"nullable":true}]}]}]}' > a.mdj
"$OCT" import staruml -i a.mdj -o o.json || "$OCT" import starUML -i a.mdj -o o.json || exit 1
! grep -q notnull o.json
''')
seed('groups-empty-first','C06',{F+'octopus/table.go':[("""	for _, table := range s.Tables {
		groupSet.Add(table.Group)
	}
	result := groupSet.Slice()
	sort.Strings(result)
	return result
}

func (s *Schema) ToSchema""","""	for _, table := range s.Tables {
		if table.Group != "" || groupSet.Size() < 2 {
			groupSet.Add(table.Group)
		}
	}
	result := groupSet.Slice()
	sort.Strings(result)
	return result
}

func (s *Schema) ToSchema""")]},
 "tables without a group beside those of two groups",
 "the workbook has no sheet for them",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64"}]},{"name":"b","group":"g","columns":[{"name":"id","type":"int64"}]},{"name":"c","group":"h","columns":[{"name":"id","type":"int64"}]}]}' > a.json
"$OCT" export xlsx -i a.json -o o.xlsx || exit 1
"$OCT" import xlsx -i o.xlsx -o o.json || exit 1
grep -q '"a"' o.json
''')
