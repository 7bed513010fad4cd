seed('ref-table-fold','C17',{F+'octopus/table.go':[("""		if table.Name == name {
			return table
		}""","""		if strings.EqualFold(table.Name, name) {
			return table
		}"""),('''	"sort"
''','''	"sort"
	"strings"
''')]},
 "two tables whose names differ in letter case, and a reference to the second of them",
 "the association leads to the struct of the other table",
'''
echo '{"version":"1","tables":[{"name":"User","className":"Big","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"user","className":"Small","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"x","columns":[{"name":"id","type":"int64","pk":true},{"name":"uid","type":"int64","ref":{"table":"user","column":"id","relationship":"n:1"}}]}]}' > a.json
"$OCT" generate gorm -i a.json -o o.go || exit 1
grep -q '^	Small  *Small' o.go
''')
seed('graphql-mkdir-nested','C29',{F+'graphql/generator.go':[("""	if err := os.MkdirAll(outputPath, 0777); err != nil {""","""	if err := os.Mkdir(outputPath, 0777); err != nil && !os.IsExist(err) {""")]},
 "an output directory whose parent directory is missing",
 "the command fails",
'''
echo '{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true}]}]}' > a.json
"$OCT" generate graphql -i a.json -o d1/d2/out && test -n "$(ls d1/d2/out)"
''')
seed('sa-write-error-last','C28',{F+'sqlalchemy/generator.go':[("""			if err := util.WriteLinesToFile(outputFile, contents); err != nil {
				return err
			}
""","""			writeErr = util.WriteLinesToFile(outputFile, contents)
"""),("""	useTZDateTime := false

""","""	useTZDateTime := false
	var writeErr error

"""),("""		if err := util.WriteLinesToFile(outputPath, finalOutput); err != nil {
			return err
		}
	}

	return nil
""","""		writeErr = util.WriteLinesToFile(outputPath, finalOutput)
	}

	return writeErr
""")]},
 "a failing write of a module which is not the last one",
 "the command reports success though a file is missing",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"b","columns":[{"name":"id","type":"int64","pk":true}]}]}' > a.json
mkdir -p out/a.py
! "$OCT" generate sqlalchemy -i a.json -o out
''')
seed('graphql-notnull-default','C20',{F+'graphql/generator.go':[("""	notNull := column.NotNull
""","""	notNull := column.NotNull && column.DefaultValue == ""
""")]},
 "a not-null column with a default value",
 "the field can be null in the schema though the column cannot",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"int64","notnull":true,"default":"0"}]}]}' > a.json
"$OCT" generate graphql -i a.json -o out || exit 1
grep -q 'x: Int!' out/*
''')
seed('type-mixed-case','C01',{F+'octopus/column.go':[("""	c.Type = c.toNormalizedType(strings.ToLower(c.Type))
""","""	if upper := strings.ToUpper(c.Type); upper == c.Type {
		c.Type = strings.ToLower(c.Type)
	}
	c.Type = c.toNormalizedType(c.Type)
""")]},
 "a type in mixed letter case (BigInt, VarChar)",
 "the schema is rejected",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"BigInt","pk":true}]}]}' > a.json
"$OCT" export mysql -i a.json -o out.sql
''')
seed('alias-tinyint-1','C01',{F+'octopus/column.go':[("""	case "tinyint":
		return ColTypeInt8
""","""	case "tinyint":
		return c.tinyintType()
"""),("""func (c *Column) toNormalizedType(""","""// tinyintType is boolean for tinyint(1), as in MySQL.
func (c *Column) tinyintType() string {
	if c.Size == 1 {
		return ColTypeBoolean
	}
	return ColTypeInt8
}

func (c *Column) toNormalizedType(""")]},
 "a column of type tinyint with size 1",
 "tinyint is not int8 any more",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"tinyint","size":1,"pk":true}]}]}' > a.json
sed s/tinyint/int8/ a.json > b.json
"$OCT" generate gorm -i a.json -o a.go || exit 1
"$OCT" generate gorm -i b.json -o b.go || exit 1
cmp a.go b.go
''')
seed('quickdbd-unique-one','C24',{F+'quickdbd/exporter.go':[("""		rel := getRelationshipType(ref)
""","""		rel := columnRelationshipType(col)
"""),("""func getRelationshipType(""","""// columnRelationshipType is one-to-one for a column without duplicates.
func columnRelationshipType(col *octopus.Column) string {
	if col.UniqueKey && col.Ref.Relationship != octopus.RefOneToMany {
		return "-"
	}
	return getRelationshipType(col.Ref)
}

func getRelationshipType(""")]},
 "a unique column with an n:1 reference",
 "the relation is drawn as 1:1",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true},{"name":"x","type":"int64","unique":true,"ref":{"table":"a","column":"id","relationship":"n:1"}}]}]}' > a.json
"$OCT" export quickdbd -i a.json -o o || exit 1
grep -q 'FK >- a.id' o
''')
seed('tojson-no-validate','C31',{F+'octopus/table.go':[("""func (s *Schema) ToJson() ([]byte, error) {
	if err := s.Normalize(); err != nil {
		return nil, err
	}
""","""func (s *Schema) ToJson() ([]byte, error) {
	sort.Sort(TableSlice(s.Tables))
	for _, table := range s.Tables {
		for _, column := range table.Columns {
			column.NormalizeType()
		}
	}
""")]},
 "an import of a model with a type that is not supported",
 "the importer writes a schema which no command accepts",
'''
cat > a.mdj <<'E'
{"_type":"Project","_id":"p","name":"P","ownedElements":[{"_type":"ERDDataModel","_id":"m","name":"M","ownedElements":[{"_type":"ERDEntity","_id":"e","name":"t","columns":[{"_type":"ERDColumn","_id":"c","name":"c","type":"NOSUCH"}]}]}]}
E
if "$OCT" import staruml -i a.mdj -o o.json; then "$OCT" export mysql -i o.json -o o.sql; fi
''')
seed('plantuml-first-column','C27',{F+'plantuml/generator.go':[("""		separatorAdded := false
""","""		separatorAdded := !table.Columns[0].PrimaryKey
""")]},
 "a table without columns",
 "the generator crashes",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a"}]}' > a.json
"$OCT" generate plantuml -i a.json -o o
''')
seed('sa-utc-env','C26',{F+'sqlalchemy/cli.go':[("""		EnvVars: []string{"OCTOPUS_USE_UTC"},""","""		EnvVars: []string{"OCTOPUS_USEUTC"},""")]},
 "the option given by its environment variable",
 "the variable has no effect",
'''
echo '{"name":"n","version":"1","tables":[{"name":"a","columns":[{"name":"created_at","type":"datetime","pk":true}]}]}' > a.json
OCTOPUS_USE_UTC=true "$OCT" generate sqlalchemy -i a.json -o o.py || exit 1
grep -q utcnow o.py
''')
seed('sa-prefix-inside','C25',{F+'sqlalchemy/sqlalchemy.go':[("""			tableName = strings.TrimPrefix(tableName, prefix)
""","""			tableName = strings.Replace(tableName, prefix, "", 1)
""")]},
 "a prefix to remove which also occurs inside a table name",
 "the class loses a part of its name",
'''
echo '{"name":"n","version":"1","tables":[{"name":"my_tbl_x","columns":[{"name":"id","type":"int64","pk":true}]}]}' > a.json
"$OCT" generate sqlalchemy -i a.json -o out.py -r tbl_ || exit 1
grep -q 'class MyTblX' out.py
''')
seed('pb-import-last','C21',{F+'protobuf/generator.go':[("""		if imp := field.Import; imp != "" {
			imports.Add(imp)
		}
""","""		if imp := field.Import; imp != "" && len(relations) == 0 {
			imports.Add(imp)
		}
""")]},
 "a datetime column only behind a reference",
 "the import of the type is missing",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","ref":{"table":"a","column":"id","relationship":"n:1"}},{"name":"d","type":"datetime"}]}]}' > a.json
"$OCT" generate pb -i a.json -o o.proto || exit 1
grep -q timestamp.proto o.proto
''')
seed('dbml-notnull-pk-default','C23',{F+'dbml/exporter.go':[("""			if column.UniqueKey {
				params""","""			if column.UniqueKey && !(column.PrimaryKey && len(table.PrimaryKeyNameSet().Slice()) == 1) {
				params""")]},
 "the sole primary key column of a table which is also unique",
 "the unique mark is missing",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true,"unique":true}]}]}' > a.json
"$OCT" export dbml -i a.json -o o.dbml || exit 1
grep -q 'unique' o.dbml
''')
seed('find-ref-self','C21',{F+'protobuf/generator.go':[("""			repeated := ref.Relationship == octopus.RefOneToMany
""","""			repeated := ref.Relationship == octopus.RefOneToMany || refTable == table && ref.Relationship != octopus.RefOneToOne && column.UniqueKey
""")]},
 "a unique column with an n:1 reference to its own table",
 "the relation is repeated",
'''
echo '{"version":"1","tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true},{"name":"p","type":"int64","unique":true,"ref":{"table":"a","column":"id","relationship":"n:1"}}]}]}' > a.json
"$OCT" generate pb -i a.json -o o.proto || exit 1
! grep -q repeated o.proto
''')
seed('group-list-dupes','C30',{F+'octopus/filter.go':[("""	groupSlice := strings.Split(groups, ",")
	return func(table *Table) bool {
		for _, group := range groupSlice {
			if table.Group == group {
				return true
			}
		}
		return false
	}
""","""	selected := make(map[string]bool)
	for _, group := range strings.Split(groups, ",") {
		selected[group] = !selected[group]
	}
	return func(table *Table) bool {
		return selected[table.Group]
	}
""")]},
 "a group which is listed twice",
 "the tables of the group are left out",
'''
echo '{"version":"1","tables":[{"name":"a","group":"g","columns":[{"name":"id","type":"int64","pk":true}]}]}' > a.json
"$OCT" export mysql -i a.json -o o.sql -g g,g || exit 1
grep -q CREATE o.sql
''')
