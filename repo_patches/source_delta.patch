From 600cf287cc79239f7ba8a940d9a9d9aee8ee59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:56 +0000
Subject: [PATCH 01/98] fix: report invalid columns instead of loading a
 half-normalized schema

---
 format/octopus/io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/octopus/io.go b/format/octopus/io.go
index 52042dc..26b894b 100644
--- a/format/octopus/io.go
+++ b/format/octopus/io.go
@@ -17,7 +17,9 @@ func LoadSchema(filename string) (*Schema, error) {
 	if schema, err := reader.ToSchema(); err != nil {
 		return nil, err
 	} else {
-		schema.Normalize()
+		if err := schema.Normalize(); err != nil {
+			return nil, err
+		}
 		return schema, nil
 	}
 }
-- 
2.43.0


From 6fc7adc82cf3cb43da6fc1545ea1973e49aabe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 02/98] fix: apply --groups to dbml export

---
 format/dbml/exporter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 454524a..4c2081e 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -33,6 +33,9 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	definedTables := make(map[string]bool)
 
 	for _, table := range c.schema.Tables {
+		if c.option.TableFilter != nil && !c.option.TableFilter(table) {
+			continue
+		}
 		result = append(result, fmt.Sprintf("Table %s {", table.Name))
 
 		for _, column := range table.Columns {
-- 
2.43.0


From 5be62d36d8ed9fcb96364be0cb12b875c9a3d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:00 +0000
Subject: [PATCH 03/98] fix: include added columns in md and flyway diffs

---
 format/diff/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 258bd25..c520df2 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -249,6 +249,7 @@ func diffTable(
 				AfterColumn:  nil,
 			})
 		}
+		changeSets = append(changeSets, changeSet)
 	}
 
 	// primary key
-- 
2.43.0


From 3aaf009ee969198429488f494e055232aa241709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 04/98] fix: do not drop tables of unselected groups in md and
 flyway diffs

---
 format/diff/diff.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index c520df2..bff62e8 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -35,7 +35,10 @@ func getDiff(option *Option) (*Result, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
+	for name, table := range fromTableByName {
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			continue
+		}
 		removedTableNames.Add(name)
 	}
 
-- 
2.43.0


From 196368464126f3fc7caee5d24532a63b0d474608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:05 +0000
Subject: [PATCH 05/98] fix: do not drop tables of unselected groups in
 liquibase diff

---
 format/liquibase/diff.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 1c6594c..a23ba40 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -53,7 +53,10 @@ func (c *Diff) generate() ([]byte, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
+	for name, table := range fromTableByName {
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			continue
+		}
 		removedTableNames.Add(name)
 	}
 
-- 
2.43.0


From e7a968a08265a024de956ec07797e819054b9316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:08 +0000
Subject: [PATCH 06/98] fix: write renames of md and flyway diffs in a stable
 order

---
 format/diff/diff.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index bff62e8..b2d4b7c 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -96,7 +96,11 @@ func getDiff(option *Option) (*Result, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -227,7 +231,11 @@ func diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&RenameColumn{Table: table, OldColumn: oldColumn, NewColumn: newColumn})
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From ad82461dae3598d837ff7ea0da785a1fa701f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 07/98] fix: write renames of liquibase diff in a stable order

---
 format/liquibase/diff.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index a23ba40..f0f742f 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -114,7 +114,11 @@ func (c *Diff) generate() ([]byte, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -244,7 +248,11 @@ func (c *Diff) diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("renameColumn", newRenameColumn(table, newColumn, oldColumn))
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From a6a9b7688cf11c1a6e53e342088b2b3d12bc2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:12 +0000
Subject: [PATCH 08/98] fix: pass --uniqueNameSuffix to liquibase diff

---
 format/diff/cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/cli.go b/format/diff/cli.go
index 54e7ca0..ca10062 100644
--- a/format/diff/cli.go
+++ b/format/diff/cli.go
@@ -75,6 +75,7 @@ func LiquibaseAction(c *cli.Context) error {
 			DiffTo:      toSchema,
 			TableFilter: octopus.GetTableFilterFn(c.String(FlagGroups)),
 			UseComments: c.Bool(FlagUseComments),
+			UniqueNameSuffix: c.String(FlagUniqueNameSuffix),
 		},
 	).Generate(c.String(FlagOutput))
 }
-- 
2.43.0


From 531956a531f728541af66b1571ed651f5cd576c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 09/98] fix: drop and add unique constraints in liquibase diff
 only where they exist

---
 format/liquibase/diff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index f0f742f..7a4e446 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -233,7 +233,7 @@ func (c *Diff) diffTable(
 	uniqueChanged := !uqSet.Equals(oldUqSet)
 
 	// drop unique constraint
-	if uniqueChanged {
+	if uniqueChanged && oldUqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("dropUniqueConstraint", newDropUniqueConstraint(table, uniqueConstraintName))
@@ -300,7 +300,7 @@ func (c *Diff) diffTable(
 	}
 
 	// add unique constraint
-	if uniqueChanged {
+	if uniqueChanged && uqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		if uqSet.Size() > 0 {
-- 
2.43.0


From 719b8faaa47fe1fb4afdd06a67e4e5827b149668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:56 +0000
Subject: [PATCH 10/98] fix: do not drop a table that moved to an unselected
 group (diff/diff.go)

---
 format/diff/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index b2d4b7c..e521994 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -46,6 +46,7 @@ func getDiff(option *Option) (*Result, error) {
 	for _, table := range option.DiffTo.Tables {
 		// filter table
 		if option.TableFilter != nil && !option.TableFilter(table) {
+			removedTableNames.Remove(table.Name)
 			continue
 		}
 
-- 
2.43.0


From fbb6643f26a983a77645ce26655dfe5d25c0bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 11/98] fix: do not drop a table that moved to an unselected
 group (liquibase/diff.go)

---
 format/liquibase/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 7a4e446..e5350c8 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -64,6 +64,7 @@ func (c *Diff) generate() ([]byte, error) {
 	for _, table := range option.DiffTo.Tables {
 		// filter table
 		if option.TableFilter != nil && !option.TableFilter(table) {
+			removedTableNames.Remove(table.Name)
 			continue
 		}
 
-- 
2.43.0


From cfe6f4a81a86b4ff792689dfa51048e779fd86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 12/98] fix: drop the primary key before its columns in
 liquibase diff

---
 format/liquibase/diff.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index e5350c8..e3f5b14 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -241,6 +241,15 @@ func (c *Diff) diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	// drop primary key before its columns are removed
+	pkDropped := false
+	if oldTable.PrimaryKeyNameSet().ContainsAny(removedColumnNameSet.Slice()) {
+		pkDropped = true
+		changeSet := newLqChangeSet(id.bumpMinor(), author)
+		changeSet.Append("dropPrimaryKey", newDropPrimaryKey(table))
+		changeSets = append(changeSets, changeSet)
+	}
+
 	// removed columns
 	for _, columnName := range removedColumnNameSet.Slice() {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
@@ -288,9 +297,9 @@ func (c *Diff) diffTable(
 	// primary key
 	pkSet := table.PrimaryKeyNameSet()
 	oldPkSet := oldTable.PrimaryKeyNameSet()
-	if !pkSet.Equals(oldPkSet) {
+	if !pkSet.Equals(oldPkSet) && (pkSet.Size() > 0 || !pkDropped) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		if oldPkSet.Size() > 0 {
+		if oldPkSet.Size() > 0 && !pkDropped {
 			changeSet.Append("dropPrimaryKey", newDropPrimaryKey(table))
 		}
 		if pkSet.Size() > 0 {
-- 
2.43.0


From 615205135eb1027a01882ca9339e34b1022e28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 13/98] fix: update remarks of renamed tables in liquibase diff

---
 format/liquibase/diff.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index e3f5b14..61233e7 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -136,6 +136,12 @@ func (c *Diff) generate() ([]byte, error) {
 			result.AddChangeSet(changeSet)
 		}
 
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newLqChangeSet(id.bumpMinor(), author)
+			changeSet.Append("setTableRemarks", newSetTableRemarks(newTable))
+			result.AddChangeSet(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
-- 
2.43.0


From 09e18868085dbf763d13148896d19f530676388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:06 +0000
Subject: [PATCH 14/98] fix: report comment changes of renamed tables in md and
 flyway diffs

---
 format/diff/diff.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index e521994..a3ef1c5 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -121,6 +121,12 @@ func getDiff(option *Option) (*Result, error) {
 			result.Add(changeSet)
 		}
 
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newDiffChangeSet(id.bumpMinor(), author)
+			changeSet.Add(&SetTableComment{Table: newTable})
+			result.Add(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
-- 
2.43.0


From 785d01e81c6a53ea18c5b83c9bab47bc2635c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:08 +0000
Subject: [PATCH 15/98] fix: write function default values as computed values
 in liquibase changelogs

---
 format/liquibase/generator.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index fd59005..ff0d156 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -314,6 +314,8 @@ type LqAddDefaultValue struct {
 	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
 	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
 	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+
+	DefaultValueComputed string `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDefaultValue, error) {
@@ -328,6 +330,8 @@ func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDef
 			DefaultValueBoolean: dv.DefaultValueBoolean,
 			DefaultValueNumeric: dv.DefaultValueNumeric,
 			DefaultValueDate:    dv.DefaultValueDate,
+
+			DefaultValueComputed: dv.DefaultValueComputed,
 		}, nil
 	}
 }
@@ -403,11 +407,18 @@ type LqDefaultValue struct {
 	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
 	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
 	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+
+	DefaultValueComputed string `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	result := LqDefaultValue{}
 
+	if fn, ok := column.GetDefaultValue(); ok {
+		result.DefaultValueComputed = fn
+		return &result, nil
+	}
+
 	if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
@@ -446,6 +457,8 @@ type LqColumn struct {
 	DefaultValueNumeric interface{}    `yaml:"defaultValueNumeric,omitempty"`
 	DefaultValueDate    string         `yaml:"defaultValueDate,omitempty"`
 	AfterColumn         string         `yaml:"afterColumn,omitempty"`
+
+	DefaultValueComputed string `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq bool) (*LqColumn, error) {
@@ -487,6 +500,7 @@ func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq
 			lc.DefaultValueBoolean = dv.DefaultValueBoolean
 			lc.DefaultValueNumeric = dv.DefaultValueNumeric
 			lc.DefaultValueDate = dv.DefaultValueDate
+			lc.DefaultValueComputed = dv.DefaultValueComputed
 		}
 	}
 	return &lc, nil
-- 
2.43.0


From f50f10330d92f267daf7ba8288473ee4fcb7c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:10 +0000
Subject: [PATCH 16/98] fix: do not write function default values as
 defaultNullValue

---
 format/liquibase/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index ff0d156..aebaea0 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -270,11 +270,15 @@ type LqAddNotNullConstraint struct {
 }
 
 func newAddNotNullConstraint(table *octopus.Table, column *octopus.Column) *LqAddNotNullConstraint {
+	defaultNullValue, fn := column.GetDefaultValue()
+	if fn {
+		defaultNullValue = ""
+	}
 	return &LqAddNotNullConstraint{
 		TableName:        table.Name,
 		ColumnName:       column.Name,
 		ColumnDataType:   getLiquibaseType(column),
-		DefaultNullValue: column.DefaultValue,
+		DefaultNullValue: defaultNullValue,
 	}
 }
 
-- 
2.43.0


From 8bcc05223b0da341eade637f25e1d27936fc7e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 17/98] fix: accept 1 as true in liquibase boolean default
 values

---
 format/liquibase/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index aebaea0..dc4d3b3 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -426,7 +426,7 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
-		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true")
+		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true" || column.DefaultValue == "1")
 	} else if util.IsNumericType(column.Type) {
 		if util.IsIntType(column.Type) {
 			if num, err := strconv.Atoi(column.DefaultValue); err != nil {
-- 
2.43.0


From 840983fb1d242b0ee5b5a2a7f725b7498c966ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:15 +0000
Subject: [PATCH 18/98] fix: write valid ADD statement for added columns in
 flyway diff

---
 format/diff/mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 120f678..0fabb10 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -118,7 +118,7 @@ func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
 	colConstraints := b.mysqlExporter.ColumnConstraints(column)
 
-	sql := fmt.Sprintf("ALTER TABLE %s MODIFY ADD %s %s", tableName, column.Name, columnType)
+	sql := fmt.Sprintf("ALTER TABLE %s ADD %s %s", tableName, column.Name, columnType)
 	if colConstraints != "" {
 		sql += " " + colConstraints
 	}
-- 
2.43.0


From 2ede8b557c870b4dcab9fd7eb331e24a0515c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 19/98] fix: drop the primary key in flyway diff only if there
 was one

---
 format/diff/mysql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 0fabb10..b4d0c1e 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -86,8 +86,9 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 	tableName := table.Name
 	pkColumnNames := table.PrimaryKeyNameSet().Slice()
 
-	result := []string{
-		fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName),
+	var result []string
+	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
+		result = append(result, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName))
 	}
 
 	if len(pkColumnNames) > 0 {
-- 
2.43.0


From 46d48a7d62fd9425f30bb887fcf1d106d25b1eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 20/98] fix: remove AUTO_INCREMENT in flyway diff when it is
 turned off

---
 format/diff/mysql.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index b4d0c1e..4a2cb57 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -173,8 +173,11 @@ func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string
 			b.mysqlExporter.ColumnConstraints(column),
 		}, " ") + ";"
 	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s AUTO_INCREMENT PRIMARY KEY;",
-			tableName, columnName, columnType)
+		sql = fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType)
+		if constraints := b.mysqlExporter.ColumnConstraints(column); constraints != "" {
+			sql += " " + constraints
+		}
+		sql += ";"
 	}
 	return []string{sql}, nil
 }
-- 
2.43.0


From 6c3fb98ff3e599deeb6a4cd5c57677743e79829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:21 +0000
Subject: [PATCH 21/98] fix: keep default value and other attributes when
 flyway diff changes nullability

---
 format/diff/mysql.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 4a2cb57..04dd728 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -151,13 +151,11 @@ func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) (
 	column := c.Column
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
 
-	var sql string
-	if column.NotNull {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s NOT NULL;", tableName, column.Name, columnType)
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s;", tableName, column.Name, columnType)
+	sql := fmt.Sprintf("ALTER TABLE %s MODIFY %s %s", tableName, column.Name, columnType)
+	if constraints := b.mysqlExporter.ColumnConstraints(column); constraints != "" {
+		sql += " " + constraints
 	}
-	return []string{sql}, nil
+	return []string{sql + ";"}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
-- 
2.43.0


From fd6861431486734e34fd5bdbc2a6044f642df494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 22/98] fix: keep column default values in ojson import

---
 format/ojson/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index a02c5dc..c9d60c1 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -82,7 +82,7 @@ func (c *Importer) fromOjsonColumn(column1 *Column) *octopus.Column {
 		PrimaryKey:      column1.PrimaryKey,
 		UniqueKey:       column1.UniqueKey,
 		AutoIncremental: column1.AutoIncremental,
-		DefaultValue:    column1.Description,
+		DefaultValue:    column1.DefaultValue,
 		Ref:             ref,
 	}
 }
-- 
2.43.0


From 264de7bd86b13b82cbc03b974bc1b2a470c89a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 23/98] fix: keep table class names in ojson import

---
 format/ojson/importer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c9d60c1..c89aeae 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -61,6 +61,7 @@ func (c *Importer) fromOjsonTable(table1 *Table) *octopus.Table {
 		Columns:     columns,
 		Description: table1.Description,
 		Group:       table1.Group,
+		ClassName:   table1.ClassName,
 	}
 }
 
-- 
2.43.0


From 53c83827df5dc5a212a3f40ab2908949a8fdbb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:00 +0000
Subject: [PATCH 24/98] fix: write the on update value to xlsx onUpdate
 attributes

---
 format/xlsx/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index 5a82235..c555688 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -264,7 +264,7 @@ func getColumnAttributes(column *octopus.Column) []string {
 		attrs = append(attrs, attrDefault+"="+column.DefaultValue)
 	}
 	if column.OnUpdate != "" {
-		attrs = append(attrs, attrOnUpdate+"="+column.DefaultValue)
+		attrs = append(attrs, attrOnUpdate+"="+column.OnUpdate)
 	}
 
 	return attrs
-- 
2.43.0


From 551ed2e9df5e677f9ca2a03b6d33345436ddaab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 25/98] fix: keep the relationship of references in xlsx export

---
 format/xlsx/exporter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index c555688..6ec3247 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -272,6 +272,12 @@ func getColumnAttributes(column *octopus.Column) []string {
 
 func getColumnReference(column *octopus.Column) string {
 	if ref := column.Ref; ref != nil {
+		switch ref.Relationship {
+		case octopus.RefOneToMany:
+			return fmt.Sprintf("<%s.%s", ref.Table, ref.Column)
+		case octopus.RefOneToOne:
+			return fmt.Sprintf("-%s.%s", ref.Table, ref.Column)
+		}
 		return fmt.Sprintf("%s.%s", ref.Table, ref.Column)
 	}
 	return ""
-- 
2.43.0


From 12a53c2df3c6ef1226200da7828d81bd74572be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:04 +0000
Subject: [PATCH 26/98] fix: remove the relationship mark from table names in
 xlsx import

---
 format/xlsx/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index e2c282f..b6c90d2 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -215,7 +215,7 @@ func parseReference(s string) *octopus.Reference {
 					relationship = octopus.RefManyToOne
 				}
 				return &octopus.Reference{
-					Table:        table,
+					Table:        strings.TrimSpace(strings.TrimLeft(table, "><-")),
 					Column:       column,
 					Relationship: relationship,
 				}
-- 
2.43.0


From 3e6cd78ccd87bf2628a5d48c80a3fabd6fe7b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 27/98] fix: accept the documented autoinc attribute in xlsx
 import

---
 format/xlsx/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index b6c90d2..97675cd 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -162,7 +162,7 @@ func readGroupSheet(groupName string, sheet *xlsx.Sheet) ([]*octopus.Table, erro
 				NotNull:         util.IfThenElseBool(useNotNullColumn, nullableValue != "", nullableValue == ""),
 				PrimaryKey:      keyValue == keyPrimary,
 				UniqueKey:       keyValue == keyUnique,
-				AutoIncremental: attrMap[attrAutoInc] == "true",
+				AutoIncremental: attrMap[attrAutoInc] == "true" || attrMap[strings.ToLower(attrAutoInc)] == "true",
 				DefaultValue:    attrMap[attrDefault],
 				OnUpdate:        attrMap[attrOnUpdate],
 				Ref:             ref,
-- 
2.43.0


From feccb4a47778c7d88583e365d38c5f1da5705337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 28/98] fix: parse size of column types that have digits in
 their name

---
 util/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/types.go b/util/types.go
index 18b0ede..e456b5b 100644
--- a/util/types.go
+++ b/util/types.go
@@ -64,7 +64,7 @@ func IsDateType(typ string) bool {
 // ParseType parses column type
 // returns name, size, scale
 func ParseType(str string) (string, uint16, uint16) {
-	r := regexp.MustCompile(`(?m)([a-zA-Z]+)\(([0-9]+)[\s,]*([0-9]*)\)`)
+	r := regexp.MustCompile(`(?m)([a-zA-Z][a-zA-Z0-9]*)\(([0-9]+)[\s,]*([0-9]*)\)`)
 	groups, _ := MatchRegexGroups(r, str)
 	groupCount := len(groups)
 
-- 
2.43.0


From 0b1f2cf9b8fc253dfa64111d1876f0420f2c0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:11 +0000
Subject: [PATCH 29/98] fix: ignore starUML references to unknown columns

---
 format/staruml/importer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index d036f72..201bf19 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -80,10 +80,13 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 
 			if erdColumn.ReferenceTo != nil {
 				targetColumn := c.findById(erdColumn.ReferenceTo.Ref)
-				targetTable := c.findById(targetColumn.Parent.Ref)
-				column.Ref = &octopus.Reference{
-					Table:  targetTable.Name,
-					Column: targetColumn.Name,
+				if targetColumn != nil && targetColumn.Parent != nil {
+					if targetTable := c.findById(targetColumn.Parent.Ref); targetTable != nil {
+						column.Ref = &octopus.Reference{
+							Table:  targetTable.Name,
+							Column: targetColumn.Name,
+						}
+					}
 				}
 			}
 
-- 
2.43.0


From a4a6ddf154fcb93d00edd3acc42978c80e054190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 30/98] fix: accept numeric column lengths in starUML import

---
 util/string.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/string.go b/util/string.go
index da1bcbd..736f414 100644
--- a/util/string.go
+++ b/util/string.go
@@ -18,6 +18,8 @@ func ToInt(value interface{}, defaultValue int) int {
 		return i
 	case int:
 		return value.(int)
+	case float64:
+		return int(value.(float64))
 	default:
 		return defaultValue
 	}
-- 
2.43.0


From 772989b3b37c431d5f8f34d6cd93634495c67f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:43 +0000
Subject: [PATCH 31/98] fix: write the size of binary columns in mysql export

---
 format/mysql/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index ce395c6..4138048 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -138,7 +138,7 @@ func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string
 func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	switch col.Type {
 	case octopus.ColTypeBinary:
-		return "binary"
+		return c.formatColumnType("binary", col)
 	case octopus.ColTypeBit:
 		return c.formatColumnType("bit", col)
 	case octopus.ColTypeBlob8:
@@ -194,7 +194,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeTime:
 		return "time"
 	case octopus.ColTypeVarbinary:
-		return "varbinary"
+		return c.formatColumnType("varbinary", col)
 	case octopus.ColTypeVarchar:
 		return c.formatColumnType("varchar", col)
 	case octopus.ColTypeYear:
-- 
2.43.0


From 0776ffd17833ca928e8b37c94ed4bba77175baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:46 +0000
Subject: [PATCH 32/98] fix: quote default values of text, enum and date
 columns in mysql export

---
 format/mysql/exporter.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 4138048..5ae9cfc 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -204,6 +204,19 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	}
 }
 
+// isQuotedValue checks if the default value should be written as a string literal.
+func isQuotedValue(colType, value string) bool {
+	switch colType {
+	case octopus.ColTypeText8, octopus.ColTypeText16, octopus.ColTypeText24, octopus.ColTypeText32,
+		octopus.ColTypeEnum, octopus.ColTypeSet:
+		return true
+	case octopus.ColTypeDate, octopus.ColTypeDateTime, octopus.ColTypeTime:
+		return value != "" && value[0] >= '0' && value[0] <= '9'
+	default:
+		return false
+	}
+}
+
 func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 	var constraints []string
 
@@ -220,7 +233,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			defaultValue = defaultValue + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if util.IsStringType(column.Type) || isQuotedValue(column.Type, defaultValue) {
 				defaultValue = fmt.Sprintf("'%s'", defaultValue)
 			}
 		}
-- 
2.43.0


From 90d4d0234cf7c1660e595cee5132d008aecbdfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 33/98] fix: escape string literals in mysql export

---
 format/mysql/exporter.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 5ae9cfc..e0cbf31 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -162,7 +162,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeDouble:
 		return c.formatColumnType("double", col)
 	case octopus.ColTypeEnum:
-		return "enum(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "enum(" + util.QuoteAndJoin(escapeLiterals(col.Values), "'", ", ") + ")"
 	case octopus.ColTypeFloat:
 		return c.formatColumnType("float", col)
 	case octopus.ColTypeGeometry:
@@ -182,7 +182,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypePoint:
 		return "point"
 	case octopus.ColTypeSet:
-		return "set(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "set(" + util.QuoteAndJoin(escapeLiterals(col.Values), "'", ", ") + ")"
 	case octopus.ColTypeText8:
 		return "tinytext"
 	case octopus.ColTypeText16:
@@ -217,6 +217,16 @@ func isQuotedValue(colType, value string) bool {
 	}
 }
 
+var literalEscaper = strings.NewReplacer("\\", "\\\\", "'", "''")
+
+func escapeLiterals(values []string) []string {
+	var result []string
+	for _, value := range values {
+		result = append(result, literalEscaper.Replace(value))
+	}
+	return result
+}
+
 func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 	var constraints []string
 
@@ -234,7 +244,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if util.IsStringType(column.Type) || isQuotedValue(column.Type, defaultValue) {
-				defaultValue = fmt.Sprintf("'%s'", defaultValue)
+				defaultValue = fmt.Sprintf("'%s'", literalEscaper.Replace(defaultValue))
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -246,14 +256,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				onUpdate = fmt.Sprintf("'%s'", onUpdate)
+				onUpdate = fmt.Sprintf("'%s'", literalEscaper.Replace(onUpdate))
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, fmt.Sprintf("COMMENT '%s'", column.Description))
+		constraints = append(constraints, fmt.Sprintf("COMMENT '%s'", literalEscaper.Replace(column.Description)))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From a929da529a848574542654f4cc458573f0544494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 34/98] fix: import mysql varbinary columns as varbinary

---
 format/mysql/importer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 1f4333d..b26b098 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -266,6 +266,9 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 	case mysql.TypeNewDate:
 		return octopus.ColTypeDate, 0, 0
 	case mysql.TypeVarchar:
+		if colDef.Tp.Flag == mysql.BinaryFlag {
+			return octopus.ColTypeVarbinary, size, 0
+		}
 		return octopus.ColTypeVarchar, size, 0
 	case mysql.TypeBit:
 		if colDef.Tp.Flen == 1 {
-- 
2.43.0


From d32982293d0afcfaf0d1abdb10ee4139a22c9230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:53 +0000
Subject: [PATCH 35/98] fix: import unique column option of mysql DDL

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index b26b098..8d16bad 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -176,6 +176,8 @@ func (x *TableX) column(
 			default:
 				fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
 			}
+		case ast.ColumnOptionUniqKey:
+			column.UniqueKey = true
 		case ast.ColumnOptionNull:
 			column.NotNull = false
 		case ast.ColumnOptionOnUpdate:
-- 
2.43.0


From 06f964b54144d1d76b4b46fc319fa46f99cd735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:56 +0000
Subject: [PATCH 36/98] fix: import negative default values of mysql DDL

---
 format/mysql/importer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 8d16bad..23c31e4 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -8,6 +8,7 @@ import (
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/mysql"
+	"github.com/pingcap/parser/opcode"
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
@@ -173,6 +174,11 @@ func (x *TableX) column(
 				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
+			case *ast.UnaryOperationExpr:
+				unaryExpr := colOption.Expr.(*ast.UnaryOperationExpr)
+				if valueExpr, ok := unaryExpr.V.(ast.ValueExpr); ok && unaryExpr.Op == opcode.Minus {
+					column.SetDefaultValue(fmt.Sprintf("-%v", valueExpr.GetValue()))
+				}
 			default:
 				fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
 			}
-- 
2.43.0


From 4091c0962b6823ad41b06dfe85cbcbfb1e490fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 37/98] fix: ignore expression keys of mysql DDL instead of
 crashing

---
 format/mysql/importer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 23c31e4..f1c0e52 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -97,12 +97,21 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			case ast.ConstraintIndex:
 				var idxCols []string
 				for _, key := range cst.Keys {
+					if key.Column == nil {
+						continue
+					}
 					idxCols = append(idxCols, key.Column.Name.String())
 				}
+				if len(idxCols) == 0 {
+					break
+				}
 				indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})
 				break
 			case ast.ConstraintUniq:
 				for _, key := range cst.Keys {
+					if key.Column == nil {
+						continue
+					}
 					uniqSet.Add(key.Column.Name.String())
 				}
 			case ast.ConstraintUniqKey:
-- 
2.43.0


From 74fcca376efb858af3763a15cac73a8146a8ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:53 +0000
Subject: [PATCH 38/98] fix: ignore references to unknown tables in protobuf

---
 format/protobuf/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 52fb0ac..e21b9a5 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -188,6 +188,9 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		// reference
 		if ref := column.Ref; ref != nil {
 			refTable := t.schema.TableByName(ref.Table)
+			if refTable == nil {
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From 1a038ca867737ed5c8e523772261f872d6cadadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 39/98] fix: decrement relation tags in protobuf if
 relationTagDecr is set

---
 format/protobuf/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index e21b9a5..691476b 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -222,6 +222,9 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 	// update tag of relations
 	for i, relation := range relations {
 		relation.Tag = relTagStart + i
+		if relTagDecr {
+			relation.Tag = relTagStart - i
+		}
 	}
 
 	return &PbMessage{
-- 
2.43.0


From cbf553c9a8333863e5b142781b077b8871a9b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:57 +0000
Subject: [PATCH 40/98] fix: apply --relationTagStart and --relationTagDecr to
 protobuf

---
 format/protobuf/cli.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/protobuf/cli.go b/format/protobuf/cli.go
index a5c0da8..381a270 100644
--- a/format/protobuf/cli.go
+++ b/format/protobuf/cli.go
@@ -36,8 +36,8 @@ func Action(c *cli.Context) error {
 			Package:          c.String(FlagPackage),
 			GoPackage:        c.String(FlagGoPackage),
 			FilePath:         c.String(FlagOutput),
-			RelationTagStart: -1,
-			RelationTagDecr:  false,
+			RelationTagStart: util.ToInt(c.String(FlogRelationTagStart), -1),
+			RelationTagDecr:  c.Bool(FlogRelationTagDecr),
 		},
 	)
 	buf := new(bytes.Buffer)
-- 
2.43.0


From 1471a0d3493501f011812f17bfc36d5412077993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 41/98] fix: write one-to-many relations as repeated in
 protobuf

---
 format/protobuf/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 691476b..12a108f 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -116,7 +116,7 @@ message {{.Name}} {
   {{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
   {{- range .Relations}}
-  {{.Type}} {{.Name}} = {{.Tag}};
+  {{if .Repeated}}repeated {{end}}{{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
 }
 {{end}}`
-- 
2.43.0


From d0a66989aaa092fd8cf00ca8d2fbe417a63add29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:02 +0000
Subject: [PATCH 42/98] fix: write distinct names of relations to the same
 table in protobuf

---
 format/protobuf/generator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 12a108f..d10f851 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -176,6 +176,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 	var fields []*PbField
 	var relations []*PbRelation
 	maxTag := 0
+	usedNames := util.NewStringSet()
+	for _, column := range table.Columns {
+		fieldName, _ := util.ToLowerCamel(column.Name)
+		usedNames.Add(fieldName)
+	}
 	for i, column := range table.Columns {
 		tag := i + 1
 		maxTag = tag
@@ -193,6 +198,10 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
+			if usedNames.Contains(refName) {
+				refName = refName + "By" + strcase.ToCamel(column.Name)
+			}
+			usedNames.Add(refName)
 			repeated := ref.Relationship == octopus.RefOneToMany
 
 			relations = append(relations, &PbRelation{
-- 
2.43.0


From 277700b3afba04ebaeaabe9b04eb323a248ff10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:20 +0000
Subject: [PATCH 43/98] fix: write distinct names of associations to the same
 table in gorm

---
 format/gorm/gorm.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index d66b8c2..b02e2e1 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -38,6 +38,10 @@ func NewGoStruct(
 	var pkFields []*GoField
 	var uniqueFields []*GoField
 	var associationFields []*GoAssocationField
+	usedNames := util.NewStringSet()
+	for _, column := range table.Columns {
+		usedNames.Add(NewGoField(column).Name)
+	}
 	for _, column := range table.Columns {
 		field := NewGoField(column)
 		fields = append(fields, field)
@@ -54,8 +58,13 @@ func NewGoStruct(
 			refTable, refColumn := p.Reference(*ref)
 			if refTable != nil && refColumn != nil {
 				refType := p.StructName(refTable)
+				name := refType
+				if usedNames.Contains(name) {
+					name = name + "By" + field.Name
+				}
+				usedNames.Add(name)
 				associationFields = append(associationFields, &GoAssocationField{
-					Name:       refType,
+					Name:       name,
 					Type:       refType,
 					Array:      ref.Relationship == octopus.RefOneToMany,
 					ForeignKey: field.Name,
-- 
2.43.0


From d6fefe72d25eea8d22e43aa0f170184e88fbd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 44/98] fix: import null package in gorm only if it is used

---
 format/gorm/gorm.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index b02e2e1..9fc3871 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -106,9 +106,6 @@ func NewGoField(column *octopus.Column) *GoField {
 	var fieldType string
 	importSet := util.NewStringSet()
 	nullable := !column.NotNull
-	if nullable {
-		importSet.Add("gopkg.in/guregu/null.v4")
-	}
 
 	columnType := strings.ToLower(column.Type)
 	switch columnType {
@@ -210,6 +207,10 @@ func NewGoField(column *octopus.Column) *GoField {
 		fieldType = "interface{}"
 	}
 
+	if strings.HasPrefix(fieldType, "null.") {
+		importSet.Add("gopkg.in/guregu/null.v4")
+	}
+
 	fieldName, ok := util.ToUpperCamel(column.Name)
 	overrideName := !ok
 
-- 
2.43.0


From 89e2a49c166181fc711a2bb33aa78f1d9b020b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 45/98] fix: disable embedded models that have no columns in
 gorm

---
 format/gorm/gorm_model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 0259bad..602ef30 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -83,6 +83,9 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 
 	result := EmbeddedModels{}
 	for name, model := range embeddedModels {
+		if len(model.ColumnNames) == 0 {
+			continue
+		}
 		if columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
-- 
2.43.0


From 2bfddca6d15471ac0f306190c6a8e94eb01772d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:27 +0000
Subject: [PATCH 46/98] fix: match embedded models in a stable order in gorm

---
 format/gorm/gorm_model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 602ef30..15b204d 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -3,6 +3,7 @@ package gorm
 import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -54,6 +55,7 @@ func (m EmbeddedModels) Names() []string {
 	for name, _ := range m {
 		names = append(names, name)
 	}
+	sort.Strings(names)
 	return names
 }
 
@@ -82,7 +84,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	}
 
 	result := EmbeddedModels{}
-	for name, model := range embeddedModels {
+	for _, name := range embeddedModels.Names() {
+		model := embeddedModels[name]
 		if len(model.ColumnNames) == 0 {
 			continue
 		}
-- 
2.43.0


From ac15790a3f52ff0c16ed06244243517f742e08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 47/98] fix: do not write empty default values in JPA entities

---
 format/jpa/kotlin-gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 4c2bcc2..3e400be 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -175,9 +175,9 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}} = {{.DefaultValue}},
+        override var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}},
 		{{- else}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.Fields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
         var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
@@ -192,7 +192,7 @@ data class {{.Class.Name}}(
 {{- if ne .IdClassName ""}}
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
-- 
2.43.0


From 6b4bece932259f3aa52e0e9ebe253536735542d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 48/98] fix: skip JPA repositories of tables that have no
 primary key

---
 format/jpa/kotlin-gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 3e400be..3f2ed7e 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -341,6 +341,9 @@ func (c *KtGenerator) generateRepositories(outputPath string) error {
 	}
 
 	for _, class := range classes {
+		if len(class.PKFields) == 0 {
+			continue
+		}
 		buf := new(bytes.Buffer)
 		if err := c.generateRepository(buf, class, outputPackage, reposPackage); err != nil {
 			return err
-- 
2.43.0


From 8ba1dd4380f552090c69c23081cdd4a0fd5587af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 49/98] fix: write JPA entities to the output directory if
 package is not set

---
 util/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/io.go b/util/io.go
index 6625fff..2e66fc7 100644
--- a/util/io.go
+++ b/util/io.go
@@ -11,7 +11,7 @@ import (
 // MkdirPackage creates nested package directories.
 func MkdirPackage(basedir, pkgName string) (string, error) {
 	if pkgName == "" {
-		return "", nil
+		return Mkdir(basedir)
 	}
 	dir := path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	if err := os.MkdirAll(dir, 0777); err != nil {
-- 
2.43.0


From 705c925acd7f10e992e2b880d4ce55791c672d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 50/98] fix: do not write an empty package name in JPA entities

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 3f2ed7e..43a55cb 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -149,7 +149,7 @@ func (c *KtGenerator) GenerateEntityClass(
 
 	// template
 	tplText := `{{"" -}}
-package {{.Package}}
+{{if .Package}}package {{.Package}}{{end}}
 
 {{range .Imports}}import {{.}}
 {{end}}
-- 
2.43.0


From ed24c200d210d89e498b4e7f98e7db1a95a5533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:33 +0000
Subject: [PATCH 51/98] fix: do not write empty column types in sqlalchemy

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 109da63..77837bc 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -149,7 +149,7 @@ func (c *Generator) Generate(outputPath string) error {
 					}
 				}
 				importSet.Add("from datetime import datetime")
-			} else {
+			} else if field.Type != "" {
 				attributes = append(attributes, field.Type)
 			}
 			// PK
-- 
2.43.0


From a412eb4b68fd32fe60b70c13a6084919792208de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 52/98] fix: import Column in every file of sqlalchemy

---
 format/sqlalchemy/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 77837bc..dc6689f 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -192,6 +192,7 @@ func (c *Generator) Generate(outputPath string) error {
 			// reset slice
 			contents = make([]string, 0)
 			saImportSet.Clear()
+			saImportSet.Add("Column")
 			importSet.Clear()
 		}
 	}
-- 
2.43.0


From 5a556d91a4cf355e62db036d0eb77d45695fb7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 53/98] fix: write TZDateTime to the sqlalchemy files that use
 it

---
 format/sqlalchemy/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index dc6689f..d3cab9b 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -181,6 +181,9 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = append(contents, classLines...)
 		} else {
 			contents = append(contents, c.getHeaderLines(importSet.Slice(), saImportSet.Slice())...)
+			if useTZDateTime {
+				contents = append(contents, c.getTZDateTimeLines()...)
+			}
 			contents = append(contents, classLines...)
 			contents = append(contents, "")
 
@@ -194,6 +197,7 @@ func (c *Generator) Generate(outputPath string) error {
 			saImportSet.Clear()
 			saImportSet.Add("Column")
 			importSet.Clear()
+			useTZDateTime = false
 		}
 	}
 
-- 
2.43.0


From 97938fd55963ca1a4f94be899ecb6d3414585a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 54/98] fix: add async and await to python reserved words

---
 util/python.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/python.go b/util/python.go
index d3e50b1..6aab77c 100644
--- a/util/python.go
+++ b/util/python.go
@@ -4,6 +4,8 @@ var pythonReservedWords = [...]string{
 	"and",
 	"as",
 	"assert",
+	"async",
+	"await",
 	"break",
 	"class",
 	"continue",
-- 
2.43.0


From 198a3a85aa761bc455129a913ac97189f176a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 55/98] fix: define --useUTC of sqlalchemy as a flag as
 documented

---
 format/sqlalchemy/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/cli.go b/format/sqlalchemy/cli.go
index db5ddac..793c188 100644
--- a/format/sqlalchemy/cli.go
+++ b/format/sqlalchemy/cli.go
@@ -75,7 +75,7 @@ var CliFlags = []cli.Flag{
 		Usage:   "set unique constraint name suffix",
 		EnvVars: []string{"OCTOPUS_UNIQUE_NAME_SUFFIX"},
 	},
-	&cli.StringFlag{
+	&cli.BoolFlag{
 		Name:    FlagUseUTC,
 		Aliases: []string{"t"},
 		Usage:   "use UTC for audit column default value",
-- 
2.43.0


From 824ac367d19b5389946469412129e71d5644f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:44 +0000
Subject: [PATCH 56/98] fix: write function default values as expressions in
 dbml

---
 format/dbml/exporter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 4c2081e..5bbf0bf 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -55,7 +55,9 @@ func (c *Exporter) exportToString() ([]byte, error) {
 			}
 			if column.DefaultValue != "" {
 				defaultValue := column.DefaultValue
-				if util.IsStringType(column.Type) {
+				if fn, ok := column.GetDefaultValue(); ok {
+					defaultValue = fmt.Sprintf("`%s()`", fn)
+				} else if util.IsStringType(column.Type) {
 					defaultValue = fmt.Sprintf("'%s'", defaultValue)
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
-- 
2.43.0


From 480af9aa52fd5d8db81eb884fb1e1e69900a9245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 57/98] fix: quote default values of text, enum and date
 columns in dbml

---
 format/dbml/exporter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 5bbf0bf..2b6cba2 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -57,7 +57,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				defaultValue := column.DefaultValue
 				if fn, ok := column.GetDefaultValue(); ok {
 					defaultValue = fmt.Sprintf("`%s()`", fn)
-				} else if util.IsStringType(column.Type) {
+				} else if util.IsStringType(column.Type) || !isLiteralType(column.Type) {
 					defaultValue = fmt.Sprintf("'%s'", defaultValue)
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
@@ -105,6 +105,16 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	return []byte(strings.Join(result, "\n")), nil
 }
 
+// isLiteralType checks if default values of the type are written without quotes.
+func isLiteralType(colType string) bool {
+	switch colType {
+	case octopus.ColTypeBit, octopus.ColTypeBoolean, octopus.ColTypeYear:
+		return true
+	default:
+		return octopus.IsColTypeNumeric(colType)
+	}
+}
+
 func getRelationshipType(ref *octopus.Reference) string {
 	switch ref.Relationship {
 	case octopus.RefManyToOne:
-- 
2.43.0


From cadfd8c3fff80f8ed382cb3bef61179f846e0364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:49 +0000
Subject: [PATCH 58/98] fix: escape quotes in dbml

---
 format/dbml/exporter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 2b6cba2..328cf73 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -58,7 +58,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				if fn, ok := column.GetDefaultValue(); ok {
 					defaultValue = fmt.Sprintf("`%s()`", fn)
 				} else if util.IsStringType(column.Type) || !isLiteralType(column.Type) {
-					defaultValue = fmt.Sprintf("'%s'", defaultValue)
+					defaultValue = fmt.Sprintf("'%s'", escapeQuote(defaultValue, "'"))
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
 			}
@@ -76,7 +76,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 			}
 			if column.Description != "" {
-				params = append(params, fmt.Sprintf("note: \"%s\"", column.Description))
+				params = append(params, fmt.Sprintf("note: \"%s\"", escapeQuote(column.Description, "\"")))
 			}
 
 			columnType := column.Type
@@ -115,6 +115,10 @@ func isLiteralType(colType string) bool {
 	}
 }
 
+func escapeQuote(s, quote string) string {
+	return strings.NewReplacer("\\", "\\\\", quote, "\\"+quote).Replace(s)
+}
+
 func getRelationshipType(ref *octopus.Reference) string {
 	switch ref.Relationship {
 	case octopus.RefManyToOne:
-- 
2.43.0


From 98b1cef6db83a942251273864fa20e20f249e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:51 +0000
Subject: [PATCH 59/98] fix: write oct init output to db.json by default

---
 format/octopus/cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/octopus/cli.go b/format/octopus/cli.go
index 961cf49..7d8b6ad 100644
--- a/format/octopus/cli.go
+++ b/format/octopus/cli.go
@@ -71,6 +71,7 @@ var InitCliFlags = []cli.Flag{
 		Aliases:     []string{"o"},
 		Usage:       "init octopus schema to `FILE`",
 		EnvVars:     []string{"OCTOPUS_OUTPUT"},
+		Value:       "db.json",
 		DefaultText: "db.json",
 	},
 }
-- 
2.43.0


From 127a22e37983c93d00ff2418017fbbe161091595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 60/98] fix: keep the letter case of column names in mysql
 import

---
 format/mysql/importer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index f1c0e52..e861e5e 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -90,7 +90,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			switch cst.Tp {
 			case ast.ConstraintPrimaryKey:
 				for _, key := range cst.Keys {
-					pkSet.Add(key.Column.Name.String())
+					pkSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintKey:
 				break
@@ -112,7 +112,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 					if key.Column == nil {
 						continue
 					}
-					uniqSet.Add(key.Column.Name.String())
+					uniqSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintUniqKey:
 				break
@@ -154,15 +154,16 @@ func (x *TableX) column(
 	pkSet *util.StringSet,
 	uniqSet *util.StringSet,
 ) *octopus.Column {
-	name := colDef.Name.String()
+	name := colDef.Name.Name.String()
+	key := colDef.Name.Name.L
 	colType, colLength, colScale := x.columnType(colDef)
 	column := octopus.Column{
 		Name:       name,
 		Type:       colType,
 		Size:       colLength,
 		Scale:      colScale,
-		PrimaryKey: pkSet.Contains(name),
-		UniqueKey:  uniqSet.Contains(name),
+		PrimaryKey: pkSet.Contains(key),
+		UniqueKey:  uniqSet.Contains(key),
 		NotNull:    false,
 		Values:     x.columnValues(colType, colDef),
 	}
-- 
2.43.0


From c24e7c286083061281418add24c9fbb0538073a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 61/98] fix: do not write gorm associations to tables of
 unselected groups

---
 format/gorm/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/gorm/generator.go b/format/gorm/generator.go
index f83e439..5db768d 100644
--- a/format/gorm/generator.go
+++ b/format/gorm/generator.go
@@ -47,7 +47,11 @@ func (c *GoStructProcessor) StructName(table *octopus.Table) string {
 }
 
 func (c *GoStructProcessor) Reference(ref octopus.Reference) (*octopus.Table, *octopus.Column) {
-	return c.schema.FindReference(ref)
+	table, column := c.schema.FindReference(ref)
+	if table != nil && c.option.TableFilter != nil && !c.option.TableFilter(table) {
+		return nil, nil
+	}
+	return table, column
 }
 
 // -------------------------------
-- 
2.43.0


From de5d804261286bfdb979afe572afb8ea637994bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 62/98] fix: do not write protobuf relations to tables of
 unselected groups

---
 format/protobuf/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index d10f851..6b17055 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -196,6 +196,9 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 			if refTable == nil {
 				continue
 			}
+			if t.option.TableFilter != nil && !t.option.TableFilter(refTable) {
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			if usedNames.Contains(refName) {
-- 
2.43.0


From 4260a831d85213986ec20733ba886d418381cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 63/98] fix: skip VRelation of tables that are not generated
 instead of exiting

---
 format/jpa/kotlin-gen.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 43a55cb..6a2ea28 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -73,13 +73,13 @@ func (c *KtGenerator) getFieldAnnotations(class *KotlinClass, field *KotlinField
 		if ref := column.Ref; ref != nil {
 			targetClassName := c.getClassNameByTableName(ref.Table)
 			if len(targetClassName) == 0 {
-				log.Fatalf("Relation not found. %s::%s -> %s", class.Name, field.Name, ref.Table)
+				log.Printf("Relation not found. %s::%s -> %s", class.Name, field.Name, ref.Table)
+			} else {
+				annotations = append(annotations,
+					fmt.Sprintf("@VRelation(cls = \"%s\", field = \"%s\")",
+						targetClassName,
+						strcase.ToLowerCamel(ref.Column)))
 			}
-
-			annotations = append(annotations,
-				fmt.Sprintf("@VRelation(cls = \"%s\", field = \"%s\")",
-					targetClassName,
-					strcase.ToLowerCamel(ref.Column)))
 		}
 	}
 
-- 
2.43.0


From 66297f0bf819249f1db3207f25129cf6197b3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 64/98] fix: restore gorm associations to tables of unselected
 groups

Reverts c24e7c2: the existing test TestGorm_CustomEmbeddedStruct expects
them, the struct is generated by another run into the same package.
---
 format/gorm/generator.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/format/gorm/generator.go b/format/gorm/generator.go
index 5db768d..f83e439 100644
--- a/format/gorm/generator.go
+++ b/format/gorm/generator.go
@@ -47,11 +47,7 @@ func (c *GoStructProcessor) StructName(table *octopus.Table) string {
 }
 
 func (c *GoStructProcessor) Reference(ref octopus.Reference) (*octopus.Table, *octopus.Column) {
-	table, column := c.schema.FindReference(ref)
-	if table != nil && c.option.TableFilter != nil && !c.option.TableFilter(table) {
-		return nil, nil
-	}
-	return table, column
+	return c.schema.FindReference(ref)
 }
 
 // -------------------------------
-- 
2.43.0


From be27a30dc5b47ac2407870a372e824b02c49568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 65/98] fix: do not write gorm fields named TableName

---
 format/gorm/gorm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 9fc3871..e8e2bd3 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -219,6 +219,11 @@ func NewGoField(column *octopus.Column) *GoField {
 		re := regexp.MustCompile(`Id$`)
 		fieldName = string(re.ReplaceAll([]byte(fieldName), []byte("ID")))
 	}
+	// 'TableName' is the name of a generated method
+	if fieldName == "TableName" {
+		fieldName = "TableName_"
+		overrideName = true
+	}
 	// number prefix
 	if matched, _ := regexp.MatchString(`^\d+.*$`, fieldName); matched {
 		fieldName = "_" + fieldName
-- 
2.43.0


From 0764f2e7ed5b3bc4e3cb92c674ffd2bab2291754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 66/98] fix: write gorm association names distinct from
 embedded types and methods

---
 format/gorm/gorm.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index e8e2bd3..e9d8f33 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -38,9 +38,16 @@ func NewGoStruct(
 	var pkFields []*GoField
 	var uniqueFields []*GoField
 	var associationFields []*GoAssocationField
-	usedNames := util.NewStringSet()
+	var columnFields []*GoField
 	for _, column := range table.Columns {
-		usedNames.Add(NewGoField(column).Name)
+		columnFields = append(columnFields, NewGoField(column))
+	}
+	usedNames := util.NewStringSet("TableName")
+	for _, field := range columnFields {
+		usedNames.Add(field.Name)
+	}
+	for _, name := range extractEmbeddedModels(columnFields).Names() {
+		usedNames.Add(name[strings.LastIndex(name, ".")+1:])
 	}
 	for _, column := range table.Columns {
 		field := NewGoField(column)
-- 
2.43.0


From b04daa656d2ff48eb7ac0b056c68a5adb9b16006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 67/98] fix: write recursive gorm associations as pointers

---
 format/gorm/generator.go |  3 ++-
 format/gorm/gorm.go      | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/format/gorm/generator.go b/format/gorm/generator.go
index f83e439..5e98b03 100644
--- a/format/gorm/generator.go
+++ b/format/gorm/generator.go
@@ -267,7 +267,8 @@ func (g *Generator) GenerateStruct(
 		if associationField.Array {
 			fieldType = "[]" + associationField.Type
 		}
-		if g.option.PointerAssociation {
+		recursive := associationField.Recursive && !associationField.Array
+		if g.option.PointerAssociation || recursive {
 			fieldType = "*" + fieldType
 		}
 
diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index e9d8f33..52ee8ee 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -11,6 +11,7 @@ type GoAssocationField struct {
 	Name       string
 	Type       string
 	Array      bool
+	Recursive  bool
 	ForeignKey string
 	Reference  string
 }
@@ -74,6 +75,7 @@ func NewGoStruct(
 					Name:       name,
 					Type:       refType,
 					Array:      ref.Relationship == octopus.RefOneToMany,
+					Recursive:  isReferenced(table, refTable, p, util.NewStringSet()),
 					ForeignKey: field.Name,
 					Reference:  NewGoField(refColumn).Name,
 				})
@@ -101,6 +103,26 @@ func NewGoStruct(
 	}
 }
 
+// isReferenced checks if the struct of the table is part of the struct of the 'from' table.
+func isReferenced(table, from *octopus.Table, p IProcessor, visited *util.StringSet) bool {
+	if from == table {
+		return true
+	}
+	if visited.Contains(from.Name) {
+		return false
+	}
+	visited.Add(from.Name)
+	for _, column := range from.Columns {
+		if ref := column.Ref; ref != nil && ref.Relationship != octopus.RefOneToMany {
+			refTable, refColumn := p.Reference(*ref)
+			if refTable != nil && refColumn != nil && isReferenced(table, refTable, p, visited) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 type GoField struct {
 	Column       *octopus.Column
 	Name         string
-- 
2.43.0


From 20dbf412a413834b21a2e741e952e66d8d443059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:49 +0000
Subject: [PATCH 68/98] fix: write distinct field names next to embedded types
 in gorm

---
 format/gorm/gorm.go       | 51 +++++++++++++++++++++++++++------------
 format/gorm/gorm_model.go |  9 +++++++
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 52ee8ee..be385b0 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -35,24 +35,17 @@ func NewGoStruct(
 	table *octopus.Table,
 	p IProcessor,
 ) *GoStruct {
-	var fields []*GoField
 	var pkFields []*GoField
 	var uniqueFields []*GoField
 	var associationFields []*GoAssocationField
-	var columnFields []*GoField
-	for _, column := range table.Columns {
-		columnFields = append(columnFields, NewGoField(column))
-	}
+	fields, embeddedModels := newGoFields(table)
 	usedNames := util.NewStringSet("TableName")
-	for _, field := range columnFields {
+	for _, field := range fields {
 		usedNames.Add(field.Name)
 	}
-	for _, name := range extractEmbeddedModels(columnFields).Names() {
-		usedNames.Add(name[strings.LastIndex(name, ".")+1:])
-	}
-	for _, column := range table.Columns {
-		field := NewGoField(column)
-		fields = append(fields, field)
+	usedNames.AddAll(embeddedModels.TypeNames())
+	for _, field := range fields {
+		column := field.Column
 
 		if column.PrimaryKey {
 			pkFields = append(pkFields, field)
@@ -77,13 +70,11 @@ func NewGoStruct(
 					Array:      ref.Relationship == octopus.RefOneToMany,
 					Recursive:  isReferenced(table, refTable, p, util.NewStringSet()),
 					ForeignKey: field.Name,
-					Reference:  NewGoField(refColumn).Name,
+					Reference:  goFieldName(refTable, refColumn),
 				})
 			}
 		}
 	}
-	embeddedModels := extractEmbeddedModels(fields)
-
 	// exclude embedded fields
 	var finalFields []*GoField
 	for _, field := range fields {
@@ -103,6 +94,36 @@ func NewGoStruct(
 	}
 }
 
+// newGoFields returns fields of the table and embedded models to replace them.
+func newGoFields(table *octopus.Table) ([]*GoField, EmbeddedModels) {
+	var fields []*GoField
+	for _, column := range table.Columns {
+		fields = append(fields, NewGoField(column))
+	}
+	models := extractEmbeddedModels(fields)
+
+	// names of embedded types cannot be used as field names
+	typeNames := util.NewStringSet(models.TypeNames()...)
+	for _, field := range fields {
+		if typeNames.Contains(field.Name) && !models.ContainsColumnName(field.Column.Name) {
+			field.Name = field.Name + "_"
+			field.OverrideName = true
+		}
+	}
+	return fields, models
+}
+
+// goFieldName returns the field name of the table column.
+func goFieldName(table *octopus.Table, column *octopus.Column) string {
+	fields, _ := newGoFields(table)
+	for _, field := range fields {
+		if field.Column == column {
+			return field.Name
+		}
+	}
+	return NewGoField(column).Name
+}
+
 // isReferenced checks if the struct of the table is part of the struct of the 'from' table.
 func isReferenced(table, from *octopus.Table, p IProcessor, visited *util.StringSet) bool {
 	if from == table {
diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 15b204d..090758a 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -59,6 +59,15 @@ func (m EmbeddedModels) Names() []string {
 	return names
 }
 
+// TypeNames returns type names without package names.
+func (m EmbeddedModels) TypeNames() []string {
+	var names []string
+	for _, name := range m.Names() {
+		names = append(names, name[strings.LastIndex(name, ".")+1:])
+	}
+	return names
+}
+
 var embeddedModels EmbeddedModels
 
 func registerEmbeddedModel(name string, columnNames []string) {
-- 
2.43.0


From 6a00f8a29d6d7f4990db217c9ccc7f7bbdffb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 69/98] fix: override nullable id of id entities in JPA
 entities

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 6a2ea28..0cc8f45 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -180,7 +180,7 @@ data class {{.Class.Name}}(
         var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
-        var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
+        {{if eq . $.IdEntityField}}override {{end}}var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
     {{- end}}
 {{end}}
 {{- if eq .SuperClass ""}}
-- 
2.43.0


From 0df5fffd312c1a42f9dbb7f9a50d8db05ecdf1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:41 +0000
Subject: [PATCH 70/98] fix: write overridden column names to JPA unique
 constraints

---
 format/jpa/kotlin-gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 0cc8f45..ff69b8a 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -230,7 +230,11 @@ data class {{.IdClassName}}(
 	// unique constraint
 	var uniqueFieldNames []string
 	for _, field := range class.UniqueFields {
-		uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "\""))
+		name := field.Name
+		if field.OverrideName {
+			name = field.Column.Name
+		}
+		uniqueFieldNames = append(uniqueFieldNames, util.Quote(name, "\""))
 	}
 
 	// imports
-- 
2.43.0


From 28da16961f49bc4e1f7ba8df6b23c9fc60eb2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 71/98] fix: do not import an empty package in JPA repositories

---
 format/jpa/kotlin-gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index ff69b8a..e18bf55 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -381,8 +381,8 @@ func (c *KtGenerator) generateRepository(
 	tplString := `{{"" -}}
 package {{.ReposPackage}}
 
-import {{.EntityPackage}}.*
-import org.springframework.data.jpa.repository.JpaRepository
+{{if .EntityPackage}}import {{.EntityPackage}}.*
+{{end}}import org.springframework.data.jpa.repository.JpaRepository
 import org.springframework.stereotype.Repository
 
 @Repository
-- 
2.43.0


From fee1abf0615e55f8b45bcbdd9db3a946f820c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:45 +0000
Subject: [PATCH 72/98] fix: import the key type in JPA repositories

---
 format/jpa/kotlin-gen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index e18bf55..34e67ef 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -384,7 +384,8 @@ package {{.ReposPackage}}
 {{if .EntityPackage}}import {{.EntityPackage}}.*
 {{end}}import org.springframework.data.jpa.repository.JpaRepository
 import org.springframework.stereotype.Repository
-
+{{range .IdImports}}import {{.}}
+{{end}}
 @Repository
 interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassName}}>
 `
@@ -396,11 +397,13 @@ interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassNam
 	}
 
 	var idClassName string
+	var idImports []string
 	pkFieldCount := len(class.PKFields)
 	if pkFieldCount > 1 {
 		idClassName = class.Name + "PK"
 	} else {
 		idClassName = class.PKFields[0].Type
+		idImports = class.PKFields[0].Imports
 	}
 
 	data := struct {
@@ -408,11 +411,13 @@ interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassNam
 		ReposPackage  string
 		ClassName     string
 		IdClassName   string
+		IdImports     []string
 	}{
 		EntityPackage: entityPackageName,
 		ReposPackage:  reposPackageName,
 		ClassName:     class.Name,
 		IdClassName:   idClassName,
+		IdImports:     idImports,
 	}
 	return tmpl.Execute(wr, &data)
 }
-- 
2.43.0


From 63262ac892f2b36b409f36ea09157a524f73da24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:26 +0000
Subject: [PATCH 73/98] fix: write nullable=False of not null auto increment
 columns in sqlalchemy

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index d3cab9b..3bf4520 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -165,7 +165,7 @@ func (c *Generator) Generate(outputPath string) error {
 				attributes = append(attributes, "autoincrement=True")
 			}
 			// not null
-			if column.NotNull && !column.AutoIncremental {
+			if column.NotNull && !(column.PrimaryKey && column.AutoIncremental) {
 				attributes = append(attributes, "nullable=False")
 			}
 
-- 
2.43.0


From c01cf0f2b2f5873a84bcdb11aad74b21ceb08ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:29 +0000
Subject: [PATCH 74/98] fix: do not write scale of sqlalchemy Float which has
 no such parameter

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 3bf4520..cfe323c 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -120,7 +120,7 @@ func (c *Generator) Generate(outputPath string) error {
 				if column.Size > 0 {
 					colAttrs = append(colAttrs, fmt.Sprintf("precision=%d", column.Size))
 				}
-				if column.Scale > 0 {
+				if column.Scale > 0 && field.Type != "Float" {
 					colAttrs = append(colAttrs, fmt.Sprintf("scale=%d", column.Scale))
 				}
 
-- 
2.43.0


From 0ef79e7ce3d886a31ddb7aa9f7234863165e6fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:31 +0000
Subject: [PATCH 75/98] fix: escape metadata and datetime columns in sqlalchemy

---
 format/sqlalchemy/sqlalchemy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/sqlalchemy/sqlalchemy.go b/format/sqlalchemy/sqlalchemy.go
index 17f7e4a..2f2305f 100644
--- a/format/sqlalchemy/sqlalchemy.go
+++ b/format/sqlalchemy/sqlalchemy.go
@@ -131,7 +131,8 @@ func NewSaField(column *octopus.Column) *SaField {
 	fieldName, ok := util.ToLowerSnake(column.Name)
 
 	// check python reserved words
-	reservedWord := util.IsPythonReservedWord(fieldName)
+	// 'metadata' is reserved by declarative classes, and 'datetime' would hide the imported class.
+	reservedWord := util.IsPythonReservedWord(fieldName) || fieldName == "metadata" || fieldName == "datetime"
 	if reservedWord {
 		fieldName = fieldName + "_"
 	}
-- 
2.43.0


From 54fa84e7ae30aef8ed005c285e378f0899363603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 76/98] fix: report null tables and columns of a schema file
 instead of crashing

---
 format/octopus/table.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index 96ce2b5..31c0d58 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -174,7 +174,30 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	if err := json.Unmarshal(data, s); err != nil {
+		return err
+	}
+	return s.checkNulls()
+}
+
+// checkNulls returns an error if a table, column or index is null
+func (s *Schema) checkNulls() error {
+	for i, table := range s.Tables {
+		if table == nil {
+			return fmt.Errorf("tables[%d] is null", i)
+		}
+		for j, column := range table.Columns {
+			if column == nil {
+				return fmt.Errorf("table: '%s': columns[%d] is null", table.Name, j)
+			}
+		}
+		for j, index := range table.Indices {
+			if index == nil {
+				return fmt.Errorf("table: '%s': indices[%d] is null", table.Name, j)
+			}
+		}
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
-- 
2.43.0


From 0128d6442d71c4eca49847759f1c790a466f2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 77/98] fix: report invalid ojson files instead of crashing

---
 format/ojson/importer.go |  4 +++-
 format/ojson/table.go    | 25 +++++++++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c89aeae..b115eaa 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -34,7 +34,9 @@ func (c *Importer) ImportJSON(data []byte) (*octopus.Schema, error) {
 	if err := schema1.FromJson(data); err != nil {
 		return nil, err
 	}
-	schema1.Normalize()
+	if err := schema1.Normalize(); err != nil {
+		return nil, err
+	}
 
 	var tables []*octopus.Table
 	for _, table1 := range schema1.Tables {
diff --git a/format/ojson/table.go b/format/ojson/table.go
index af3bba3..53ddb86 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -2,6 +2,7 @@ package ojson
 
 import (
 	"encoding/json"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
@@ -119,7 +120,9 @@ func (s *Schema) ToFile(filename string) error {
 }
 
 func (s *Schema) ToJson() ([]byte, error) {
-	s.Normalize()
+	if err := s.Normalize(); err != nil {
+		return nil, err
+	}
 	return json.MarshalIndent(s, "", "  ")
 }
 
@@ -132,11 +135,24 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	if err := json.Unmarshal(data, s); err != nil {
+		return err
+	}
+	for i, table := range s.Tables {
+		if table == nil {
+			return fmt.Errorf("tables[%d] is null", i)
+		}
+		for j, column := range table.Columns {
+			if column == nil {
+				return fmt.Errorf("table: '%s': columns[%d] is null", table.Name, j)
+			}
+		}
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
-func (s *Schema) Normalize() {
+func (s *Schema) Normalize() error {
 	sort.Sort(TableSlice(s.Tables))
 
 	for _, table := range s.Tables {
@@ -146,7 +162,7 @@ func (s *Schema) Normalize() {
 
 				// validate
 				if err := column.Validate(true); err != nil {
-					log.Panicf("table: %s, %s", table.Name, err.Error())
+					return fmt.Errorf("table: '%s': %w", table.Name, err)
 				}
 			} else {
 				log.Printf("unknown column type: '%s', table: %s, column: %s",
@@ -154,6 +170,7 @@ func (s *Schema) Normalize() {
 			}
 		}
 	}
+	return nil
 }
 
 // normalizeColumnType converts column type to octopus generalized column type
-- 
2.43.0


From 2107af62f7adf75a63593e817e8a9cd4dad09880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 78/98] fix: skip null elements of StarUML files instead of
 crashing

---
 format/staruml/importer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 201bf19..c3fe730 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -112,7 +112,7 @@ func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 	var result []*Element
 
 	for _, elem := range elems {
-		if elem.ElemType == typ {
+		if elem != nil && elem.ElemType == typ {
 			result = append(result, elem)
 		}
 	}
@@ -121,6 +121,9 @@ func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 }
 
 func (c *Importer) walkElement(elem *Element) {
+	if elem == nil {
+		return
+	}
 	c.mapById[elem.ID] = elem
 
 	c.walkElements(elem.OwnedElements)
-- 
2.43.0


From 971e4bf520226ba1d8ae8949fbdd726ecd03981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:16 +0000
Subject: [PATCH 79/98] fix: report malformed workbooks instead of crashing

---
 format/xlsx/importer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index 97675cd..5176929 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -18,7 +18,7 @@ type Importer struct {
 }
 
 func (c *Importer) Import(filename string) (*octopus.Schema, error) {
-	xlFile, err := xlsx.OpenFile(filename)
+	xlFile, err := openFile(filename)
 	if err != nil {
 		return nil, err
 	}
@@ -36,6 +36,16 @@ func (c *Importer) Import(filename string) (*octopus.Schema, error) {
 	return c.toSchema()
 }
 
+// openFile opens the workbook. xlsx package panics on some malformed workbooks.
+func openFile(filename string) (file *xlsx.File, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid workbook '%s': %v", filename, r)
+		}
+	}()
+	return xlsx.OpenFile(filename)
+}
+
 func (c *Importer) toSchema() (*octopus.Schema, error) {
 	author := ""
 	name := ""
-- 
2.43.0


From 28f66018e8c398b7f315ae804b52d199ccdb0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 80/98] fix: export the empty and Common groups into one sheet

---
 format/xlsx/exporter.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index 6ec3247..968a6a7 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -29,9 +29,10 @@ func (c *Exporter) Export(filename string) error {
 	}
 
 	for _, group := range c.schema.Groups() {
-		groupName := group
-		if groupName == "" {
-			groupName = "Common"
+		groupName := sheetName(group)
+		if file.Sheet[groupName] != nil && groupName != xlsxSheetMeta {
+			// tables are already in the sheet
+			continue
 		}
 		sheet, err := file.AddSheet(groupName)
 		if err != nil {
@@ -50,7 +51,7 @@ func (c *Exporter) Export(filename string) error {
 			},
 		}
 
-		if err = fillGroupSheet(sheet, c.schema, group, c.option.UseNullColumn); err != nil {
+		if err = fillGroupSheet(sheet, c.schema, groupName, c.option.UseNullColumn); err != nil {
 			return err
 		}
 	}
@@ -58,6 +59,11 @@ func (c *Exporter) Export(filename string) error {
 	return file.Save(filename)
 }
 
+// sheetName returns name of the sheet which contains tables of the group
+func sheetName(group string) string {
+	return util.IfThenElseString(group == "", "Common", group)
+}
+
 func fillMetaSheet(sheet *xlsx.Sheet, schema *octopus.Schema) error {
 	_ = sheet.SetColWidth(0, 0, 10.5)
 	_ = sheet.SetColWidth(1, 1, 10.5)
@@ -129,7 +135,7 @@ func newStyle(
 func fillGroupSheet(
 	sheet *xlsx.Sheet,
 	schema *octopus.Schema,
-	group string,
+	groupName string,
 	useNullColumn bool) error {
 	_ = sheet.SetColWidth(0, 0, 18)
 	_ = sheet.SetColWidth(1, 1, 13.5)
@@ -178,7 +184,7 @@ func fillGroupSheet(
 
 	tableCount := len(schema.Tables)
 	for i, table := range schema.Tables {
-		if table.Group != group {
+		if sheetName(table.Group) != groupName {
 			continue
 		}
 
-- 
2.43.0


From 65b3eed873413f5951919d59c25016f5a573f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 81/98] fix: write the values of enum and set types to
 liquibase changelogs

---
 format/liquibase/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index dc4d3b3..a3b521a 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -622,6 +622,14 @@ func getLiquibaseType(column *octopus.Column) string {
 		fallthrough
 	case octopus.ColTypeBlob32:
 		typ = "blob"
+	case octopus.ColTypeEnum:
+		fallthrough
+	case octopus.ColTypeSet:
+		var values []string
+		for _, value := range column.Values {
+			values = append(values, strings.NewReplacer("\\", "\\\\", "'", "''").Replace(value))
+		}
+		return fmt.Sprintf("%s(%s)", strings.ToLower(column.Type), util.QuoteAndJoin(values, "'", ", "))
 	default:
 		typ = column.Type
 	}
-- 
2.43.0


From ab90070a67fce0a7af073531b7b612f605816f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 82/98] fix: report changed values of enum and set columns in
 diffs

---
 format/diff/diff.go      |  2 +-
 format/diff/markdown.go  | 11 ++++++++++-
 format/liquibase/diff.go |  2 +-
 format/octopus/column.go | 23 ++++++++++++++++++++---
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index a3ef1c5..81d4a2a 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -309,7 +309,7 @@ func diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if !column.IsSameType(oldColumn) {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&ChangeColumnType{Table: table, OldColumn: oldColumn, NewColumn: column})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index ebc8aa0..c56e5b2 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -2,6 +2,7 @@ package diff
 
 import (
 	"fmt"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"reflect"
@@ -201,7 +202,15 @@ func (w *MarkdownChangeSetWriter) toSetColumnCommentMD(c *SetColumnComment) (str
 
 func (w *MarkdownChangeSetWriter) toChangeColumnTypeMD(c *ChangeColumnType) (string, error) {
 	return fmt.Sprintf("change column type: `%s` :`%s` → `%s`",
-		c.NewColumn.Name, c.OldColumn.Format(), c.NewColumn.Format()), nil
+		c.NewColumn.Name, formatColumnType(c.OldColumn), formatColumnType(c.NewColumn)), nil
+}
+
+// formatColumnType formats column type including values of enum or set.
+func formatColumnType(column *octopus.Column) string {
+	if column.Type == octopus.ColTypeEnum || column.Type == octopus.ColTypeSet {
+		return fmt.Sprintf("%s(%s)", column.Type, util.QuoteAndJoin(column.Values, "'", ", "))
+	}
+	return column.Format()
 }
 
 func (w *MarkdownChangeSetWriter) toRenameColumnMD(c *RenameColumn) (string, error) {
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 61233e7..34fb28e 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -346,7 +346,7 @@ func (c *Diff) diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if !column.IsSameType(oldColumn) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("modifyDataType", newModifyDataType(table, column))
 		changeSets = append(changeSets, changeSet)
diff --git a/format/octopus/column.go b/format/octopus/column.go
index 8aae547..300599b 100644
--- a/format/octopus/column.go
+++ b/format/octopus/column.go
@@ -84,11 +84,28 @@ func (c *Column) toNormalizedType(colType string) string {
 	return colType
 }
 
+// IsSameType checks if both columns have the same type, size, scale, and values of enum or set.
+func (c *Column) IsSameType(target *Column) bool {
+	if c.Type != target.Type || c.Size != target.Size || c.Scale != target.Scale {
+		return false
+	}
+	if c.Type != ColTypeEnum && c.Type != ColTypeSet {
+		return true
+	}
+	if len(c.Values) != len(target.Values) {
+		return false
+	}
+	for i, value := range c.Values {
+		if value != target.Values[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func (c *Column) IsRenamed(target *Column, excludeDescription bool) bool {
-	return c.Type == target.Type &&
+	return c.IsSameType(target) &&
 		(excludeDescription || (c.Description == target.Description)) &&
-		c.Size == target.Size &&
-		c.Scale == target.Scale &&
 		c.NotNull == target.NotNull &&
 		c.PrimaryKey == target.PrimaryKey &&
 		c.UniqueKey == target.UniqueKey &&
-- 
2.43.0


From 907f596a7692883fd22d0ececa0f3ee766d69692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 83/98] fix: give distinct names to the fields of a GORM struct

---
 format/gorm/gorm.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index be385b0..c0a1e96 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -63,6 +63,9 @@ func NewGoStruct(
 				if usedNames.Contains(name) {
 					name = name + "By" + field.Name
 				}
+				for usedNames.Contains(name) {
+					name = name + "_"
+				}
 				usedNames.Add(name)
 				associationFields = append(associationFields, &GoAssocationField{
 					Name:       name,
@@ -102,13 +105,23 @@ func newGoFields(table *octopus.Table) ([]*GoField, EmbeddedModels) {
 	}
 	models := extractEmbeddedModels(fields)
 
-	// names of embedded types cannot be used as field names
-	typeNames := util.NewStringSet(models.TypeNames()...)
+	// names of embedded types and their fields cannot be used as field names
+	usedNames := util.NewStringSet(models.TypeNames()...)
+	for _, field := range fields {
+		if models.ContainsColumnName(field.Column.Name) {
+			usedNames.Add(field.Name)
+		}
+	}
+	// names of fields must be distinct
 	for _, field := range fields {
-		if typeNames.Contains(field.Name) && !models.ContainsColumnName(field.Column.Name) {
+		if models.ContainsColumnName(field.Column.Name) {
+			continue
+		}
+		for usedNames.Contains(field.Name) {
 			field.Name = field.Name + "_"
 			field.OverrideName = true
 		}
+		usedNames.Add(field.Name)
 	}
 	return fields, models
 }
-- 
2.43.0


From a17b2cd9f42db6e94545c0b54bbb94820bdf54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 84/98] fix: give distinct names to the fields of a protobuf
 message

---
 format/protobuf/generator.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 6b17055..c38a4b8 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -177,15 +177,16 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 	var relations []*PbRelation
 	maxTag := 0
 	usedNames := util.NewStringSet()
-	for _, column := range table.Columns {
-		fieldName, _ := util.ToLowerCamel(column.Name)
-		usedNames.Add(fieldName)
-	}
 	for i, column := range table.Columns {
 		tag := i + 1
 		maxTag = tag
 		field := newPbField(tag, column)
+		field.Name = uniqueName(field.Name, usedNames)
+		usedNames.Add(field.Name)
 		fields = append(fields, field)
+	}
+	for i, column := range table.Columns {
+		field := fields[i]
 		if imp := field.Import; imp != "" {
 			imports.Add(imp)
 		}
@@ -202,7 +203,7 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			if usedNames.Contains(refName) {
-				refName = refName + "By" + strcase.ToCamel(column.Name)
+				refName = uniqueName(refName+"By"+strcase.ToCamel(column.Name), usedNames)
 			}
 			usedNames.Add(refName)
 			repeated := ref.Relationship == octopus.RefOneToMany
@@ -247,6 +248,15 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 	}
 }
 
+// uniqueName returns the name, with a number appended if it is already used.
+func uniqueName(name string, usedNames *util.StringSet) string {
+	result := name
+	for i := 2; usedNames.Contains(result); i++ {
+		result = fmt.Sprintf("%s%d", name, i)
+	}
+	return result
+}
+
 func newPbField(tag int, column *octopus.Column) *PbField {
 	var fieldType string
 	var imp string
-- 
2.43.0


From 8dbf1a50f5f54736785bddb8d65db47109afa1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 85/98] fix: give distinct names to the fields and queries of a
 GraphQL schema

---
 format/graphql/generator.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index b286b34..afca7ce 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -6,6 +6,7 @@ import (
 	"github.com/iancoleman/strcase"
 	"github.com/lechuckroh/octopus-db-tools/format/common"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
+	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
 	"os"
@@ -57,8 +58,14 @@ func NewClass(
 
 	var fields []*Field
 	var pkFields []*Field
+	usedNames := util.NewStringSet()
 	for _, column := range table.Columns {
 		field := NewField(column)
+		// names of fields must be distinct
+		for usedNames.Contains(field.Name) {
+			field.Name = field.Name + "_"
+		}
+		usedNames.Add(field.Name)
 		fields = append(fields, field)
 
 		if column.PrimaryKey {
@@ -152,6 +159,7 @@ func (c *Generator) Generate(outputPath string) error {
 	client := pluralize.NewClient()
 
 	appendLine(0, "type Query {")
+	usedQueryNames := util.NewStringSet()
 	for _, table := range c.schema.Tables {
 		// filter table
 		if c.option.TableFilter != nil && !c.option.TableFilter(table) {
@@ -162,7 +170,13 @@ func (c *Generator) Generate(outputPath string) error {
 		classes = append(classes, class)
 
 		lowerClassName := strcase.ToLowerCamel(class.Name)
-		appendLine(1, fmt.Sprintf("%s: [%s]", client.Plural(lowerClassName), class.Name))
+		queryName := client.Plural(lowerClassName)
+		// names of queries must be distinct
+		for usedQueryNames.Contains(queryName) {
+			queryName = queryName + "_"
+		}
+		usedQueryNames.Add(queryName)
+		appendLine(1, fmt.Sprintf("%s: [%s]", queryName, class.Name))
 	}
 	appendLine(0, "}")
 	appendLine(0, "")
-- 
2.43.0


From 2139cbe6c928e02c29cc62224bb4ed2e8470cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 86/98] fix: give distinct names to the properties of a JPA
 entity

---
 format/jpa/kotlin-gen.go | 17 ++++++++++++++++-
 format/jpa/kotlin.go     |  7 +++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 34e67ef..935b184 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -78,7 +78,7 @@ func (c *KtGenerator) getFieldAnnotations(class *KotlinClass, field *KotlinField
 				annotations = append(annotations,
 					fmt.Sprintf("@VRelation(cls = \"%s\", field = \"%s\")",
 						targetClassName,
-						strcase.ToLowerCamel(ref.Column)))
+						c.getFieldName(ref.Table, ref.Column)))
 			}
 		}
 	}
@@ -293,6 +293,21 @@ func (c *KtGenerator) getClassNameByTableName(tableName string) string {
 	return ""
 }
 
+// getFieldName returns the property name of the table column.
+func (c *KtGenerator) getFieldName(tableName, columnName string) string {
+	for _, cls := range c.classes {
+		if cls.table.Name != tableName {
+			continue
+		}
+		for _, field := range cls.Fields {
+			if field.Column.Name == columnName {
+				return field.Name
+			}
+		}
+	}
+	return strcase.ToLowerCamel(columnName)
+}
+
 func (c *KtGenerator) Generate(outputPath string) error {
 	if err := c.generateEntities(outputPath); err != nil {
 		return err
diff --git a/format/jpa/kotlin.go b/format/jpa/kotlin.go
index 0558cb6..d92cfb7 100644
--- a/format/jpa/kotlin.go
+++ b/format/jpa/kotlin.go
@@ -45,8 +45,15 @@ func NewKotlinClass(
 	var fields []*KotlinField
 	var pkFields []*KotlinField
 	var uniqueFields []*KotlinField
+	usedNames := util.NewStringSet()
 	for _, column := range table.Columns {
 		field := NewKotlinField(column)
+		// names of properties must be distinct
+		for usedNames.Contains(field.Name) {
+			field.Name = field.Name + "_"
+			field.OverrideName = true
+		}
+		usedNames.Add(field.Name)
 		fields = append(fields, field)
 
 		if column.PrimaryKey {
-- 
2.43.0


From 388be6f3fcd4db9570064e27a3bef3b8abb2ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 87/98] fix: give distinct names to the attributes of a
 SQLAlchemy class

---
 format/sqlalchemy/sqlalchemy.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/sqlalchemy/sqlalchemy.go b/format/sqlalchemy/sqlalchemy.go
index 2f2305f..29eb696 100644
--- a/format/sqlalchemy/sqlalchemy.go
+++ b/format/sqlalchemy/sqlalchemy.go
@@ -43,8 +43,15 @@ func NewSaClass(
 	var fields []*SaField
 	var pkFields []*SaField
 	var uniqueFields []*SaField
+	usedNames := util.NewStringSet()
 	for _, column := range table.Columns {
 		field := NewSaField(column)
+		// names of attributes must be distinct
+		for usedNames.Contains(field.Name) {
+			field.Name = field.Name + "_"
+			field.OverrideName = true
+		}
+		usedNames.Add(field.Name)
 		fields = append(fields, field)
 
 		if column.PrimaryKey {
-- 
2.43.0


From 645a7837fb486d0453508f872a2a87e7c9666dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:38 +0000
Subject: [PATCH 88/98] fix: write DBML strings with line breaks as multi-line
 strings

---
 format/dbml/exporter.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 328cf73..66fa1fd 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -58,7 +58,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				if fn, ok := column.GetDefaultValue(); ok {
 					defaultValue = fmt.Sprintf("`%s()`", fn)
 				} else if util.IsStringType(column.Type) || !isLiteralType(column.Type) {
-					defaultValue = fmt.Sprintf("'%s'", escapeQuote(defaultValue, "'"))
+					defaultValue = quoteString(defaultValue, "'")
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
 			}
@@ -76,7 +76,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 			}
 			if column.Description != "" {
-				params = append(params, fmt.Sprintf("note: \"%s\"", escapeQuote(column.Description, "\"")))
+				params = append(params, "note: "+quoteString(column.Description, "\""))
 			}
 
 			columnType := column.Type
@@ -115,6 +115,14 @@ func isLiteralType(colType string) bool {
 	}
 }
 
+// quoteString quotes a string. Strings with line breaks are written as multi-line strings.
+func quoteString(s, quote string) string {
+	if strings.ContainsAny(s, "\r\n") {
+		return "'''" + escapeQuote(s, "'") + "'''"
+	}
+	return quote + escapeQuote(s, quote) + quote
+}
+
 func escapeQuote(s, quote string) string {
 	return strings.NewReplacer("\\", "\\\\", quote, "\\"+quote).Replace(s)
 }
-- 
2.43.0


From d2a6f8bffe37e47b187fe0dd9eaa339fc5c5654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:38 +0000
Subject: [PATCH 89/98] fix: keep QuickDBD comments and defaults on one line

---
 format/quickdbd/exporter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index 213e9b1..c286342 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -33,7 +33,7 @@ func (c *Exporter) Export(wr io.Writer) error {
 
 func getTableDef(table *octopus.Table) string {
 	if table.Description != "" {
-		return fmt.Sprintf("%s # %s", table.Name, table.Description)
+		return fmt.Sprintf("%s # %s", table.Name, toSingleLine(table.Description))
 	} else {
 		return table.Name
 	}
@@ -56,19 +56,24 @@ func getColumnDef(col *octopus.Column) string {
 		params = append(params, "NULLABLE")
 	}
 	if col.DefaultValue != "" {
-		params = append(params, fmt.Sprintf("default=%s", col.DefaultValue))
+		params = append(params, fmt.Sprintf("default=%s", toSingleLine(col.DefaultValue)))
 	}
 	if ref := col.Ref; ref != nil {
 		rel := getRelationshipType(ref)
 		params = append(params, fmt.Sprintf("FK %s %s.%s", rel, ref.Table, ref.Column))
 	}
 	if col.Description != "" {
-		params = append(params, fmt.Sprintf("# %s", col.Description))
+		params = append(params, fmt.Sprintf("# %s", toSingleLine(col.Description)))
 	}
 
 	return fmt.Sprintf("%s %s", col.Name, strings.Join(params, " "))
 }
 
+// toSingleLine replaces line breaks, since a comment ends at the end of a line.
+func toSingleLine(s string) string {
+	return strings.NewReplacer("\r\n", " ", "\r", " ", "\n", " ").Replace(s)
+}
+
 func getRelationshipType(ref *octopus.Reference) string {
 	switch ref.Relationship {
 	case octopus.RefManyToOne:
-- 
2.43.0


From 899c0cc8b87d66fa5e1d6548aa27b53b2c7032d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:24 +0000
Subject: [PATCH 90/98] fix: ignore malformed entries of prefix and annotation
 options

---
 format/common/annotation.go | 4 ++++
 format/common/prefix.go     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/format/common/annotation.go b/format/common/annotation.go
index bb5d0e3..c925205 100644
--- a/format/common/annotation.go
+++ b/format/common/annotation.go
@@ -15,6 +15,10 @@ func NewAnnotationMapper(annotation string) *AnnotationMapper {
 	if strings.Contains(annotation, ":") {
 		for _, annoToken := range strings.Split(annotation, ",") {
 			kv := strings.SplitN(annoToken, ":", 2)
+			if len(kv) != 2 {
+				// not an entry
+				continue
+			}
 			group := kv[0]
 			annotations := strings.Split(kv[1], ";")
 			annoMap[group] = annotations
diff --git a/format/common/prefix.go b/format/common/prefix.go
index ffa9990..23c89b5 100644
--- a/format/common/prefix.go
+++ b/format/common/prefix.go
@@ -15,6 +15,10 @@ func NewPrefixMapper(prefix string) *PrefixMapper {
 	if strings.Contains(prefix, ":") {
 		for _, prefixToken := range strings.Split(prefix, ",") {
 			kv := strings.SplitN(prefixToken, ":", 2)
+			if len(kv) != 2 {
+				// not an entry
+				continue
+			}
 			group := kv[0]
 			prefixValue := kv[1]
 			prefixMap[group] = prefixValue
-- 
2.43.0


From 6f158100d33eeaa52f6aaf48e535d7576d1e9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:44 +0000
Subject: [PATCH 91/98] fix: write the column name of Kotlin fields whose words
 start with a digit

---
 format/jpa/kotlin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/format/jpa/kotlin.go b/format/jpa/kotlin.go
index d92cfb7..a7ab00b 100644
--- a/format/jpa/kotlin.go
+++ b/format/jpa/kotlin.go
@@ -4,9 +4,13 @@ import (
 	"github.com/iancoleman/strcase"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
+	"regexp"
 	"strings"
 )
 
+// wordWithDigit finds words which start with a digit.
+var wordWithDigit = regexp.MustCompile(`_[0-9]`)
+
 type KotlinClass struct {
 	table        *octopus.Table
 	Name         string
@@ -170,6 +174,10 @@ func NewKotlinField(column *octopus.Column) *KotlinField {
 	}
 
 	fieldName, ok := util.ToLowerCamel(column.Name)
+	// naming strategies derive 'user_id2' from 'userId2'
+	if wordWithDigit.MatchString(column.Name) {
+		ok = false
+	}
 
 	return &KotlinField{
 		Column:       column,
-- 
2.43.0


From 3a5c5c1fa06cd6d551499490244a4d017a73a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 92/98] fix: import bit and hexadecimal defaults of MySQL
 columns as values of the column

---
 format/mysql/importer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index e861e5e..cc934d8 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -12,6 +12,7 @@ import (
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
+	"math/big"
 	"strings"
 )
 
@@ -181,7 +182,7 @@ func (x *TableX) column(
 		case ast.ColumnOptionDefaultValue:
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
-				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
+				column.SetDefaultValue(literalValue(colType, colOption.Expr.(ast.ValueExpr).GetValue()))
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
 			case *ast.UnaryOperationExpr:
@@ -229,6 +230,23 @@ func (x *TableX) column(
 	return &column
 }
 
+// literalValue returns the value of a literal as columns of the type hold it.
+func literalValue(colType string, value interface{}) interface{} {
+	literal, ok := value.(ast.BinaryLiteral)
+	if !ok {
+		return value
+	}
+	switch colType {
+	case octopus.ColTypeBit, octopus.ColTypeBoolean, octopus.ColTypeDecimal, octopus.ColTypeDouble,
+		octopus.ColTypeFloat, octopus.ColTypeInt8, octopus.ColTypeInt16, octopus.ColTypeInt24,
+		octopus.ColTypeInt32, octopus.ColTypeInt64, octopus.ColTypeYear:
+		return new(big.Int).SetBytes([]byte(literal.ToString()))
+	case octopus.ColTypeChar, octopus.ColTypeVarchar:
+		return literal.ToString()
+	}
+	return value
+}
+
 func (x *TableX) columnValues(colType string, colDef *ast.ColumnDef) []string {
 	switch colType {
 	case octopus.ColTypeEnum:
-- 
2.43.0


From 029bd555e5c02bd77a41574216d2fd1b2e2b8550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:38 +0000
Subject: [PATCH 93/98] fix: import defaults with a plus sign from MySQL

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index cc934d8..67843de 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -189,6 +189,8 @@ func (x *TableX) column(
 				unaryExpr := colOption.Expr.(*ast.UnaryOperationExpr)
 				if valueExpr, ok := unaryExpr.V.(ast.ValueExpr); ok && unaryExpr.Op == opcode.Minus {
 					column.SetDefaultValue(fmt.Sprintf("-%v", valueExpr.GetValue()))
+				} else if ok && unaryExpr.Op == opcode.Plus {
+					column.SetDefaultValue(valueExpr.GetValue())
 				}
 			default:
 				fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
-- 
2.43.0


From ade47cc8bdd21c3803a4653f13034590aa53e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:12 +0000
Subject: [PATCH 94/98] fix: import MySQL columns as binary by their character
 set

---
 format/mysql/importer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 67843de..61dd16f 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
+	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
 	"github.com/pingcap/parser/opcode"
 	_ "github.com/pingcap/parser/test_driver"
@@ -304,7 +305,7 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 	case mysql.TypeNewDate:
 		return octopus.ColTypeDate, 0, 0
 	case mysql.TypeVarchar:
-		if colDef.Tp.Flag == mysql.BinaryFlag {
+		if colDef.Tp.Charset == charset.CharsetBin {
 			return octopus.ColTypeVarbinary, size, 0
 		}
 		return octopus.ColTypeVarchar, size, 0
@@ -347,7 +348,7 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 			return octopus.ColTypeBlob16, 0, 0
 		}
 	case mysql.TypeString:
-		if colDef.Tp.Flag == mysql.BinaryFlag {
+		if colDef.Tp.Charset == charset.CharsetBin {
 			return octopus.ColTypeBinary, size, 0
 		}
 		return octopus.ColTypeChar, size, 0
-- 
2.43.0


From 040e76d1bb7b11c86b50c227c2eee44f71cc17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 95/98] fix: import index columns with the names the columns
 have

---
 format/mysql/importer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 61dd16f..9ad708f 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -84,6 +84,12 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			return in, false
 		}
 
+		// column names are case-insensitive
+		colNames := make(map[string]string)
+		for _, colDef := range createTableStmt.Cols {
+			colNames[colDef.Name.Name.L] = colDef.Name.Name.String()
+		}
+
 		// constraints
 		pkSet := util.NewStringSet()
 		uniqSet := util.NewStringSet()
@@ -102,7 +108,11 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 					if key.Column == nil {
 						continue
 					}
-					idxCols = append(idxCols, key.Column.Name.String())
+					colName, ok := colNames[key.Column.Name.L]
+					if !ok {
+						colName = key.Column.Name.String()
+					}
+					idxCols = append(idxCols, colName)
 				}
 				if len(idxCols) == 0 {
 					break
-- 
2.43.0


From d028450295587b1f3cb65eaf9cf081c4d9498eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:13 +0000
Subject: [PATCH 96/98] fix: escape quotes in the values of markdown diffs

---
 format/diff/markdown.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index c56e5b2..6616b23 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -208,7 +208,11 @@ func (w *MarkdownChangeSetWriter) toChangeColumnTypeMD(c *ChangeColumnType) (str
 // formatColumnType formats column type including values of enum or set.
 func formatColumnType(column *octopus.Column) string {
 	if column.Type == octopus.ColTypeEnum || column.Type == octopus.ColTypeSet {
-		return fmt.Sprintf("%s(%s)", column.Type, util.QuoteAndJoin(column.Values, "'", ", "))
+		var values []string
+		for _, value := range column.Values {
+			values = append(values, strings.ReplaceAll(value, "'", "''"))
+		}
+		return fmt.Sprintf("%s(%s)", column.Type, util.QuoteAndJoin(values, "'", ", "))
 	}
 	return column.Format()
 }
-- 
2.43.0


From ffa573c5d924199c76c724f26d9f52ae0b7c67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:13 +0000
Subject: [PATCH 97/98] fix: keep comments of markdown diffs in one line

---
 format/diff/markdown.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index 6616b23..b067b17 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -156,6 +156,11 @@ func (w *MarkdownChangeSetWriter) toMarkdownLine(change Change) (string, error)
 	}
 }
 
+// joinLines replaces line breaks, which break list items, with spaces.
+func joinLines(text string) string {
+	return strings.NewReplacer("\r\n", " ", "\r", " ", "\n", " ").Replace(text)
+}
+
 func (w *MarkdownChangeSetWriter) toCreateTableMD(c *CreateTable) (string, error) {
 	return "create table", nil
 }
@@ -185,7 +190,7 @@ func (w *MarkdownChangeSetWriter) toDropUniqueConstraintMD(c *DropUniqueConstrai
 }
 
 func (w *MarkdownChangeSetWriter) toSetTableCommentMD(c *SetTableComment) (string, error) {
-	return fmt.Sprintf("update table comment: `%s`", c.Table.Description), nil
+	return fmt.Sprintf("update table comment: `%s`", joinLines(c.Table.Description)), nil
 }
 
 func (w *MarkdownChangeSetWriter) toAddColumnMD(c *AddColumn) (string, error) {
@@ -197,7 +202,7 @@ func (w *MarkdownChangeSetWriter) toDropColumnMD(c *DropColumn) (string, error)
 }
 
 func (w *MarkdownChangeSetWriter) toSetColumnCommentMD(c *SetColumnComment) (string, error) {
-	return fmt.Sprintf("update column comment: `%s` :`%s`", c.Column.Name, c.Column.Description), nil
+	return fmt.Sprintf("update column comment: `%s` :`%s`", c.Column.Name, joinLines(c.Column.Description)), nil
 }
 
 func (w *MarkdownChangeSetWriter) toChangeColumnTypeMD(c *ChangeColumnType) (string, error) {
@@ -242,6 +247,6 @@ func (w *MarkdownChangeSetWriter) toSetDefaultValueMD(c *SetDefaultValue) (strin
 	if defaultValue == "" {
 		return fmt.Sprintf("remove default value: `%s`", c.Column.Name), nil
 	} else {
-		return fmt.Sprintf("update default value: `%s` : `%s`", c.Column.Name, defaultValue), nil
+		return fmt.Sprintf("update default value: `%s` : `%s`", c.Column.Name, joinLines(defaultValue)), nil
 	}
 }
-- 
2.43.0


From c6bb4b824d6dc0c93cd8a6bd2775aa2ce89f1af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:25 +0000
Subject: [PATCH 98/98] fix: keep the digits of decimal defaults in Liquibase

---
 format/liquibase/generator.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index a3b521a..702871e 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -7,6 +7,7 @@ import (
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
 	"log"
+	"math/big"
 	"strconv"
 	"strings"
 )
@@ -415,6 +416,13 @@ type LqDefaultValue struct {
 	DefaultValueComputed string `yaml:"defaultValueComputed,omitempty"`
 }
 
+// isSameDecimal returns true if the shortest notation of num is the value of text.
+func isSameDecimal(text string, num float64) bool {
+	x, ok := new(big.Rat).SetString(text)
+	y, _ := new(big.Rat).SetString(strconv.FormatFloat(num, 'g', -1, 64))
+	return ok && y != nil && x.Cmp(y) == 0
+}
+
 func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	result := LqDefaultValue{}
 
@@ -437,6 +445,9 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 		} else {
 			if num, err := strconv.ParseFloat(column.DefaultValue, 64); err != nil {
 				return nil, err
+			} else if octopus.IsColTypeDecimal(column.Type) && !isSameDecimal(column.DefaultValue, num) {
+				// keep digits that float64 cannot hold
+				result.DefaultValueNumeric = column.DefaultValue
 			} else {
 				result.DefaultValueNumeric = &num
 			}
-- 
2.43.0

