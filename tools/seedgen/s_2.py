seed('autoinc-mediumint-lost','C01',{F+'octopus/types.go':[("""			ColTypeInt16,
			ColTypeInt24,
			ColTypeInt32,
			ColTypeInt64,
			ColTypeInt8,
		})
}

// IsColTypeClob checks if clob column type.
func IsColTypeClob""","""			ColTypeInt16,
			ColTypeInt32,
			ColTypeInt64,
			ColTypeInt8,
		})
}

// IsColTypeClob checks if clob column type.
func IsColTypeClob""")]},
 "an auto-increment column of type int24 / mediumint",
 "loading silently drops auto-increment of an integer column",
'''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"mediumint","pk":true,"notnull":true,"autoinc":true}]}]}' > a.json
"$OCT" export mysql -i a.json -o o.sql || exit 1
grep -qi auto_increment o.sql
''')
seed('table-order-group-only','C01',{F+'octopus/table.go':[("""	if s[i].Group < s[j].Group {
		return true
	}
	if s[i].Group == s[j].Group {
		return s[i].Name < s[j].Name
	}
	return false
""","""	if s[i].Group == s[j].Group {
		return len(s[i].Name) < len(s[j].Name) || len(s[i].Name) == len(s[j].Name) && s[i].Name[0] < s[j].Name[0]
	}
	return s[i].Group < s[j].Group
""")]},
 "two tables of one group whose names have the same length and first letter, listed in different orders",
 "the order of the tables in the file shows in the output",
'''
A='{"name":"item_a","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}'
B='{"name":"item_b","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}'
echo "{\\"tables\\":[$A,$B]}" > a.json
echo "{\\"tables\\":[$B,$A]}" > b.json
"$OCT" export mysql -i a.json -o a.sql && "$OCT" export mysql -i b.json -o b.sql || exit 1
cmp a.sql b.sql
''')
seed('mysql-roundtrip-autoinc-null','C05',{F+'mysql/importer.go':[("""		case ast.ColumnOptionDefaultValue:
			switch colOption.Expr.(type) {
""","""		case ast.ColumnOptionDefaultValue:
			expr := colOption.Expr
			if !column.NotNull && column.UniqueKey {
				expr = nil
			}
			switch expr.(type) {
""")]},
 "a nullable unique column with a default value",
 "its default value is lost by exporting to MySQL and importing the script",
'''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"c","type":"varchar","size":9,"unique":true,"default":"zz"}]}]}' > a.json
"$OCT" export mysql -i a.json -o o.sql && "$OCT" import mysql -i o.sql -o b.json || exit 1
grep -q '"default": "zz"' b.json
''')
seed('liquibase-pk-separate','C10',{F+'liquibase/generator.go':[("newLqColumn(column, pkCount > 1, uniqueCount > 1)","newLqColumn(column, pkCount > 1 || uniqueCount > 1, uniqueCount > 1)")]},
 "a table with a single primary key column and two or more unique columns",
 "the created table has no primary key at all",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"a","type":"int32","unique":true},{"name":"b","type":"int32","unique":true}]}]}' > a.json
"$OCT" generate liquibase -i a.json -o o.yaml || exit 1
grep -qi primaryKey o.yaml
''')
seed('gorm-field-cache','C16',{F+'gorm/gorm.go':[("""func NewGoField(column *octopus.Column) *GoField {
	var fieldType string
""","""var goFieldTypes = map[string]string{}

func NewGoField(column *octopus.Column) *GoField {
	field := newField(column)
	// fields of the same name have the same type in all structs
	key := column.Name + " " + column.Type
	if t, ok := goFieldTypes[key]; ok && column.PrimaryKey == column.NotNull {
		field.Type = t
	} else {
		goFieldTypes[key] = field.Type
	}
	return field
}

func newField(column *octopus.Column) *GoField {
	var kind, fieldType string
	_ = kind
""")]},
 "two tables with a column of the same name and type that is nullable in one and not in the other",
 "the field of the second struct gets the Go type of the first, whatever its nullability",
'''
cat > a.json <<'E'
{"tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"note","type":"varchar","size":9,"notnull":true}]},
{"name":"b","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"note","type":"varchar","size":9}]}]}
E
"$OCT" generate gorm -i a.json -o o.go || exit 1
[ "$(grep -c 'Note string' o.go)" = 1 ] && [ "$(grep -c 'Note null.String' o.go)" = 1 ]
''')
seed('kt-timestamp-import','C18',{F+'jpa/kotlin-gen.go':[("""		// @CreationTimestamp
		if column.Type == octopus.ColTypeDateTime && field.Name == "createdAt" {
			importSet.Add(""","""		// @CreationTimestamp
		if column.Type == octopus.ColTypeDateTime && field.Name == "createdAt" && column.NotNull {
			importSet.Add(""")]},
 "a nullable datetime column created_at",
 "the entity uses @CreationTimestamp without importing it",
'''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"created_at","type":"datetime"}]}]}' > a.json
"$OCT" generate kt -i a.json -o out --package p || exit 1
f=$(find out -name 'T.kt')
! grep -q '@CreationTimestamp' "$f" || grep -q 'import org.hibernate.annotations.CreationTimestamp' "$f"
''')
seed('kt-repository-key','C19',{F+'jpa/kotlin-gen.go':[("""	if pkFieldCount > 1 {
		idClassName = class.Name + "PK"
	} else {
""","""	if pkFieldCount > 1 && len(class.PKFields) < len(class.Fields) {
		idClassName = class.Name + "PK"
	} else {
""")]},
 "a table all of whose columns (two or more) belong to the primary key, with repositories generated",
 "the repository is typed with the type of the first key column instead of the identifier class",
'''
echo '{"tables":[{"name":"user_role","columns":[{"name":"user_id","type":"int64","pk":true,"notnull":true},{"name":"role_id","type":"int64","pk":true,"notnull":true}]}]}' > a.json
"$OCT" generate kt -i a.json -o out --package p --reposPackage q || exit 1
grep -rq 'JpaRepository<UserRole, UserRolePK>' out
''')
seed('kt-vrelation-class','C19',{F+'jpa/kotlin-gen.go':[("		if cls.table.Name == tableName {\n","		if strings.HasPrefix(tableName, cls.table.Name) {\n")]},
 "a reference to a table whose name begins with the name of another table that comes first",
 "the relation annotation names the class of the wrong table",
'''
cat > a.json <<'E'
{"tables":[{"name":"user","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]},
{"name":"user_group","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]},
{"name":"zone","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"g_id","type":"int64","ref":{"table":"user_group","column":"id","relationship":"n:1"}}]}]}
E
"$OCT" generate kt -i a.json -o out --package p --relation VRelation || exit 1
grep -rq 'cls = "UserGroup"' out
''')
seed('gorm-prefix-once','C25',{F+'gorm/generator.go':[("""		for _, prefix := range c.option.RemovePrefixes {
			tableName = strings.TrimPrefix(tableName, prefix)
		}
""","""		for _, prefix := range c.option.RemovePrefixes {
			if strings.HasPrefix(tableName, prefix) {
				tableName = strings.TrimPrefix(tableName, prefix)
				break
			}
		}
""")]},
 "two prefixes to remove, one behind the other in a table name (tbl_app_user without tbl_ and app_)",
 "the second prefix stays in the struct name",
'''
echo '{"tables":[{"name":"tbl_app_user","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}]}' > a.json
"$OCT" generate gorm -i a.json -o o.go -r tbl_,app_ || exit 1
grep -q 'type User struct' o.go
''')
seed('pb-memo-by-class','C25',{F+'protobuf/generator.go':[("""	messageName := strcase.ToCamel(tableName)

""","""	messageName := strcase.ToCamel(strings.TrimSpace(tableName))
	if len(t.option.RemovePrefixes) > 1 && table.Group == "" {
		// prefixes belong to groups
		return messageName
	}

""")]},
 "a prefix for all messages together with several prefixes to remove, and a table without group",
 "the message is not preceded by the configured prefix",
'''
echo '{"tables":[{"name":"tbl_user","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}]}' > a.json
"$OCT" generate pb -i a.json -o o.proto -d tbl_,x_ -f Pb || exit 1
grep -q 'message PbUser ' o.proto
''')
seed('pb-decr-set-only','C26',{F+'protobuf/cli.go':[("			RelationTagStart: util.ToInt(c.String(FlogRelationTagStart), -1),\n","			RelationTagStart: util.ToInt(c.String(FlagRelTagStart), -1),\n"),
 ("const (\n	FlagGoPackage        =","const FlagRelTagStart = \"s\"\n\nconst (\n	FlagGoPackage        ="),
 ("		EnvVars: []string{\"OCTOPUS_RELATION_TAG_START\"},\n","		EnvVars: []string{\"OCTOPUS_RELATION_TAG_BEGIN\"},\n")]},
 "the start of relation tags given by its environment variable",
 "the documented environment variable has no effect",
'''
cat > a.json <<'E'
{"tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"b_id","type":"int64","ref":{"table":"b","column":"id","relationship":"n:1"}}]},
{"name":"b","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]}]}
E
OCTOPUS_RELATION_TAG_START=50 "$OCT" generate pb -i a.json -o o.proto || exit 1
grep -q '= 50;' o.proto
''')
