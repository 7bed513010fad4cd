import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Equivalent spellings of a schema file mean the same schema",
 "Two schema files that differ only in the order of their tables, in the letter case of column types, or in using a documented type alias (string, int, bigint, text, numeric, timestamp, ...) instead of its canonical type are the same schema to every export, generate and diff command: each command writes the same output for both, and a diff between them is empty. Loading never loses, renames or changes a table, a column, the column order, or any attribute of either. The only documented adjustment is that auto-increment is dropped from columns of a non-integer type.",
 ["inputs"],"every schema reachable from the seed schemas by the edit alphabet, every alias/case/order respelling of it, every output command",
 "The unit tests load a handful of already canonical fixtures; the alias table is a cross product of ~40 spellings, two letter cases and every consumer.",
 ["format/octopus/types.go","format/octopus/column.go","format/octopus/table.go","format/octopus/table.go","format/octopus/io.go"],
 [("type alias table and normalisation","format/octopus/types.go"),("schema normalisation on load","format/octopus/table.go"),("loading","format/octopus/io.go")])
p("C02","An invalid schema is rejected and never turned into output",
 "A schema file with a column that has no name, a column type outside the supported list, an enum column with no values, a set column with no or more than 64 values, or that is not parseable JSON, or whose file extension is not a supported schema format, is rejected by every command that reads it: the command exits with a non-zero status, reports the problem, and writes no output. Schemas without such a defect are accepted.",
 ["inputs"],"every seed schema and edit state, every position (table, column) at which each kind of defect can be injected, every reading command (both inputs for diffs)",
 "Tests validate single columns in isolation; whether every one of the reading commands applies the validation at every position, and on both sides of a diff, is not sampled.",
 ["format/octopus/table.go","format/octopus/column.go","format/octopus/table.go","format/octopus/io.go","format/diff/cli.go"],
 [("column and table validation","format/octopus/column.go"),("load path shared by commands","format/octopus/io.go")])
p("C03","MySQL export is a faithful DDL rendering of the schema",
 "The script written by the MySQL export has exactly one CREATE TABLE statement per selected table, and each statement declares exactly the table's columns in order with the right MySQL type, length/scale or value list, NOT NULL, AUTO_INCREMENT, default value (numbers and functions bare, everything else a correctly quoted literal), ON UPDATE expression and comment. The primary key lists exactly the primary-key columns in order; a unique key named <table><suffix> covers exactly the unique columns; every declared index appears with its name and columns.",
 ["inputs","configurations"],"every schema reachable from the seeds by the edit alphabet (types x sizes x flags x defaults x descriptions x indices), every group / unique-suffix setting",
 "The exporter test compares one fixture; type, size, default and flag handling interact and are only exercised at one point each.",
 ["format/mysql/exporter.go","format/mysql/cli.go"],
 [("column definition","format/mysql/exporter.go"),("table definition and keys","format/mysql/exporter.go")])
p("C04","MySQL import reproduces the DDL as a schema",
 "Importing a MySQL script yields a schema with exactly the script's CREATE TABLE tables in the schema format's order, minus the excluded tables, each with exactly the declared columns in order and their type, length/scale, enum/set values, nullability, primary key, unique, auto-increment, default value, ON UPDATE expression and comment, however the DDL spells them (inline or table-level keys, quoted or bare identifiers, letter case). Statements other than CREATE TABLE are ignored. Named non-unique indices, and the author and version options, are carried over.",
 ["inputs","configurations"],"every abstract schema in the bound rendered in every combination of DDL spelling variants, every exclude set",
 "The importer test parses one DDL text; spelling variants multiply with types and options.",
 ["format/mysql/importer.go","format/mysql/cli.go"],
 [("DDL parse and type mapping","format/mysql/importer.go"),("exclusion option","format/mysql/cli.go")])
p("C05","MySQL export followed by import gives the schema back",
 "For a schema whose column types have a distinct MySQL counterpart, exporting it to a MySQL script and importing that script yields the same tables with the same columns in the same order, types, sizes, value lists, nullability, primary keys, unique flags, auto-increment, default values, ON UPDATE expressions, comments and indices; a second round trip changes nothing more.",
 ["inputs","histories"],"every schema in the bound restricted to round-trippable types; export/import histories of length 2 (and a fixed point after)",
 "No test runs export and import together; each is compared with its own fixture.",
 ["format/mysql/exporter.go","format/mysql/importer.go"],
 [("exporter","format/mysql/exporter.go"),("importer","format/mysql/importer.go")])
p("C06","Excel export followed by import gives the schema back",
 "The exported workbook, read by the documented notation, describes the schema, and importing it yields the same tables in the same groups with the same columns in the same order, types, sizes, keys, unique flags, nullability, auto-increment, default values, ON UPDATE expressions, descriptions and references; with the not-null notation option used on both sides the result is the same. Author, name and version in the Meta sheet survive.",
 ["inputs","configurations","histories"],"every schema in the bound (enum/set columns are a recorded known finding), both nullability notations",
 "The xlsx tests export and import fixtures separately and cover one workbook each.",
 ["format/xlsx/exporter.go","format/xlsx/importer.go"],
 [("sheet writer","format/xlsx/exporter.go"),("sheet reader","format/xlsx/importer.go")],)
p("C07","Every documented Excel notation is imported with its documented meaning",
 "A workbook written in the documented layout - a Meta sheet plus one sheet per group with table/reference, column, type, key, nullable (or not-null) and description/attribute cells - imports to exactly the schema the layout describes, for every documented key mark, nullability mark, attribute (auto-increment, default, on-update), type spelling and cell order.",
 ["inputs","configurations"],"every workbook in the bound, built independently of the exporter: every key / nullable / attribute / type spelling in every column position, with and without the not-null option",
 "One fixture workbook is imported by the tests.",
 ["format/xlsx/importer.go","README.md"],
 [("workbook parsing","format/xlsx/importer.go")])
p("C08","ojson import is lossless",
 "Importing an ojson (previous format) schema yields a schema with exactly its tables and columns in order, carrying over group, description, class name, type, size/scale, nullability, primary key, unique key, auto-increment, default value and reference.",
 ["inputs"],"every ojson document reachable from the seed documents by the edit alphabet",
 "One conversion fixture is tested.",
 ["format/ojson/importer.go","format/ojson/table.go","format/ojson/column.go"],
 [("conversion","format/ojson/importer.go"),("ojson document model","format/ojson/table.go")])
p("C09","StarUML import is faithful and tolerates dangling references",
 "Importing a StarUML model yields exactly the entities of its ERD data model as tables, each with its columns in order and their type, length (the length property if it has one, else the one written in its type), nullability, primary key, unique flag, description and the foreign-key reference to the right table and column. A reference to an element that does not exist is dropped, it never makes the import fail or attach to a wrong column.",
 ["inputs"],"every StarUML document in the bound, including reference-to targets present / absent / in another entity and numeric or textual lengths",
 "One .uml fixture is imported by the tests.",
 ["format/staruml/importer.go","format/staruml/staruml.go"],
 [("element traversal and reference resolution","format/staruml/importer.go")])
p("C10","Applying a generated Liquibase changelog to an empty database gives the schema",
 "Interpreting the change sets of a generated Liquibase changelog in order, starting from an empty database, creates exactly the selected tables with exactly their columns, types (including the values of enum and set columns), nullability, primary keys, unique constraints, auto-increment, default values and (when requested) comments. Every change-set id is unique in the file, every change set is well-formed and applicable at its position.",
 ["inputs","configurations"],"every schema in the bound, every group / unique-suffix / comment setting",
 "Tests compare generated YAML with fixtures for a few tables; nobody applies the change sets.",
 ["format/liquibase/generator.go","format/liquibase/cli.go"],
 [("change set generation","format/liquibase/generator.go")])
p("C11","A Liquibase diff applied to the old schema gives the new schema",
 "Interpreting a Liquibase diff changelog in order on a database holding the old schema is applicable at each step and gives a database equal to the new schema in tables, columns, types (including the values of enum and set columns), nullability, primary keys, unique columns, auto-increment, default values, and comments when requested. The diff has no change set if and only if nothing it covers changed, and change-set ids are unique.",
 ["inputs","configurations","histories"],"every ordered pair (old,new) where new is reachable from old by up to the bound of edits, plus cross-seed pairs; with and without comments, groups, suffixes",
 "Tests check a few hand-picked pairs against fixtures; the pair space is quadratic in schemas and edits interact (rename + key change + type change).",
 ["format/liquibase/diff.go","format/diff/diff.go","format/liquibase/cli.go"],
 [("change detection","format/diff/diff.go"),("change set generation","format/liquibase/diff.go")])
p("C12","The Markdown diff reports every change and nothing else",
 "The Markdown diff of two schemas names both versions and lists, under the heading of the table concerned, exactly the changes between them: table creation, removal and rename, added, removed and renamed columns, changed type (or values of an enum or set column), nullability, auto-increment, default value, primary key and unique columns, and comments when requested. Applying the listed changes to the old schema accounts for every difference to the new one, no listed change is void, and equal schemas give no change.",
 ["inputs","configurations"],"every ordered pair (old,new) in the bound of edits, plus cross-seed pairs; with and without comments and group filter",
 "A few pairs are compared with fixtures by the tests.",
 ["format/diff/markdown.go","format/diff/diff.go","format/diff/changeset.go","format/diff/cli.go"],
 [("change detection","format/diff/diff.go"),("rendering","format/diff/markdown.go")])
p("C13","A MySQL (Flyway) diff script applied to the old schema gives the new schema",
 "Executing the statements of a MySQL diff script in order on a database holding the old schema succeeds at each step and gives the new schema for table creation, removal and rename, column addition (columns behind all others in their order), nullability and auto-increment changes, and primary-key creation, change and removal. Equal schemas give a script with no statement, and no statement touches a table or column that did not change.",
 ["inputs","configurations","histories"],"every ordered pair (old,new) in the bound of edits, plus cross-seed pairs; the change kinds the script silently leaves out are recorded as known findings",
 "The tests do not execute the statements; the order of statements and the state they meet matter.",
 ["format/diff/mysql.go","format/diff/flyway.go","format/diff/diff.go"],
 [("statement rendering","format/diff/mysql.go"),("change detection","format/diff/diff.go")])
p("C14","The group filter selects exactly the named groups' tables",
 "With a group option, every export, generate and diff command outputs exactly what it would output for the same schema(s) with all tables outside the named groups removed; with several groups, the union; without the option, all tables. A table is never dropped, duplicated or leaked from another group, and references to tables left out cause no failure (only GORM structs keep their association to a struct left out, which another run generates into the same package). A diff in which a table changes its group is not covered.",
 ["inputs","configurations"],"every multi-group schema in the bound, every subset of its groups (and an unknown group), every command with a group option",
 "Tests use the group option in one or two generators only.",
 ["format/octopus/filter.go","format/octopus/table.go","format/diff/cli.go","format/jpa/cli.go","format/gorm/cli.go"],
 [("group filter","format/octopus/filter.go"),("filters in commands","format/*/cli.go")])
p("C15","The same input always produces the same output",
 "Running a command twice on the same input files with the same options produces byte-identical output text (identical cell contents for workbooks), whatever order the runtime happens to iterate its hash tables in.",
 ["schedules","inputs"],"every choice of map iteration start at every map iteration executed by the tool, up to a bounded number of deviations from the default, for every command and seed schema",
 "Map iteration order is chosen by the runtime; a test run samples one order and passes by luck.",
 ["format/gorm/generator.go","format/jpa/kotlin-gen.go","format/sqlalchemy/generator.go","format/protobuf/generator.go","format/diff/diff.go","util/set.go","util/multimap.go"],
 [("set and multimap iteration","util/set.go"),("import collection","format/gorm/generator.go")])
p("C16","Generated GORM code compiles and mirrors the columns",
 "The Go source generated for GORM is valid, type-correct Go with exactly the needed imports, exactly one struct per selected table with one distinctly named field per column in order, whose Go type matches the column type and nullability and whose gorm tag carries, where the type has them, the column name, the database type (bit, char, varchar and decimal columns), primary key, auto-increment, not null, unique and size (with the scale of decimals that have one) as in the schema, plus a TableName method returning the table's name.",
 ["inputs","configurations"],"every schema in the bound, every option setting (package, prefix, pointer association, unique suffix, remove prefix, group)",
 "Fixture comparison of a few tables; the result is never type-checked.",
 ["format/gorm/generator.go","format/gorm/gorm.go","format/gorm/gorm_model.go","format/gorm/cli.go"],
 [("struct generation","format/gorm/gorm.go"),("import collection","format/gorm/generator.go")])
p("C17","GORM embedding and associations follow the columns and references",
 "A struct embeds gorm.Model or a configured embed type exactly when the table contains all columns of that type, and then omits exactly those columns; otherwise every column is a field of its own. For each reference column to a column of a table of the schema, an association field to that table's struct appears, with the cardinality the relation declares, and the names of all fields in a struct are distinct.",
 ["inputs","configurations"],"every subset of the embeddable columns (and altered variants of them), every reference relationship, self references, several references to the same table, every embed option setting",
 "Tests cover one embedding fixture.",
 ["format/gorm/generator.go","format/gorm/gorm.go","format/gorm/gorm_model.go"],
 [("embedding decision","format/gorm/gorm_model.go"),("association fields","format/gorm/gorm.go")])
p("C18","Generated JPA entities mirror tables, columns and keys",
 "For each selected table there is exactly one Kotlin entity class, in the output file the options call for and the requested package, annotated with the table name and unique constraint, with one distinctly named property per column in order whose Kotlin type and nullability match the column and whose annotations give the column name where it is not the plain snake case of the property, length/precision, not-null, identifier and generated value as in the schema; a not-null property defaults to the zero value (or current time) of its type. With an id interface, the class implements it and overrides its property exactly when the only key property is named id. Every type used is imported, and nothing unused from the type map is.",
 ["inputs","configurations"],"every schema in the bound, every option setting (package, annotations, prefix, remove prefix, id entity, unique suffix, group)",
 "Fixture comparison of two tables.",
 ["format/jpa/kotlin-gen.go","format/jpa/kotlin.go","format/jpa/cli.go"],
 [("entity generation","format/jpa/kotlin-gen.go"),("type mapping","format/jpa/kotlin.go")])
p("C19","JPA keys, repositories and relations match the primary key and references",
 "A table with a composite primary key gets an identifier class holding exactly those key properties, and its entity names it; a repository is generated, when a repository package is given, for exactly the tables that have a primary key, typed with the entity class and the key's type (the single key column's type or the identifier class) and importing both. With the VRelation option each reference column whose referenced table is generated carries exactly one relation annotation with the referenced class, and no others do.",
 ["inputs","configurations"],"every primary-key subset and order over the bounded columns x repository / relation options",
 "Composite keys and repositories are covered by one fixture.",
 ["format/jpa/kotlin-gen.go","format/jpa/kotlin.go"],
 [("key class and repository generation","format/jpa/kotlin-gen.go")])
p("C20","Generated GraphQL schema mirrors the tables",
 "The generated GraphQL document has exactly one object type per table, with exactly one distinctly named field per column in order of the matching scalar type, non-null exactly when the column is not nullable, and ID for a sole primary key; every type used is a built-in or declared, and the query type lists every table's class once.",
 ["inputs","configurations"],"every schema in the bound, every option setting",
 "One fixture.",
 ["format/graphql/generator.go","format/graphql/cli.go"],
 [("type generation","format/graphql/generator.go")])
p("C21","Generated Protocol Buffers messages are well-formed and mirror the tables",
 "The generated proto file has exactly one message per selected table with one field per column in order of the matching proto type (columns of types the generator reports as unsupported excepted), and one relation field per reference column whose referenced table exists, with the cardinality the relation declares. Field names and tags are distinct within a message, tags are positive, column tags count from 1 and relation tags follow the start/decrement options; every non-scalar type used is a declared message or an imported file, and package and language options appear as requested.",
 ["inputs","configurations"],"every schema in the bound, every reference shape (self, dangling, repeated), every tag start/decrement setting",
 "One fixture; tag assignment depends on counts and options that are never varied.",
 ["format/protobuf/generator.go","format/protobuf/cli.go"],
 [("message generation","format/protobuf/generator.go")])
p("C22","Generated SQLAlchemy models load and mirror the tables",
 "The generated Python source is valid and importable, every name it uses is imported, and it declares exactly one model class per selected table with the table name and one distinctly named attribute per column in order whose column name, type and length/precision (for types that have a counterpart), primary key, auto-increment, nullability and unique flag match the schema, with created_at and updated_at set by the current time (UTC if asked for); attribute names that Python or the declarative base reserves are escaped and still map to the column. The module need not map tables that have no primary key. Each output file, single or one per table, is complete on its own.",
 ["inputs","configurations"],"every schema in the bound, every option setting (single file or directory, prefix, remove prefix, unique suffix, utc, group)",
 "Fixtures are compared as text; the module is never executed.",
 ["format/sqlalchemy/generator.go","format/sqlalchemy/sqlalchemy.go","format/sqlalchemy/cli.go","util/python.go"],
 [("model generation","format/sqlalchemy/generator.go"),("column rendering","format/sqlalchemy/sqlalchemy.go")])
p("C23","DBML export mirrors tables, columns and references",
 "The exported DBML is syntactically valid and has exactly one table block per selected table, with exactly one line per column in order carrying type and size, pk, unique, not null, default and note as in the schema, and exactly one relationship per reference column with the right endpoints and cardinality.",
 ["inputs","configurations"],"every schema in the bound (descriptions and defaults with quotes included), every group setting",
 "One fixture.",
 ["format/dbml/exporter.go","format/dbml/cli.go"],
 [("table and reference rendering","format/dbml/exporter.go")])
p("C24","QuickDBD and PlantUML diagrams show every table, column and relation",
 "The QuickDBD and PlantUML outputs contain exactly one block per table with exactly one line per column in order, showing name, type, and key, nullability and uniqueness marks as in the schema, and exactly one relation per reference column with the right endpoints and direction.",
 ["inputs","configurations"],"every schema in the bound, every group setting and output form",
 "One fixture each.",
 ["format/quickdbd/exporter.go","format/plantuml/generator.go","format/quickdbd/cli.go","format/plantuml/cli.go"],
 [("QuickDBD rendering","format/quickdbd/exporter.go"),("PlantUML rendering","format/plantuml/generator.go")])
p("C25","Class names follow the naming options in every generator",
 "In every class generator the name of a table's class is the table's explicit class name if it has one and the generator supports it, and otherwise the camel-case table name without any of the prefixes asked to be removed, preceded by the prefix configured for its group. The same class name is used at the declaration and at every place the class is referred to.",
 ["inputs","configurations"],"every table-name shape x prefix map x remove-prefix list x explicit class name in the bound, over gorm, jpa, graphql, sqlalchemy and protobuf",
 "Prefix handling is tested on single values per helper.",
 ["format/common/prefix.go","util/string.go","format/gorm/gorm.go","format/jpa/kotlin.go","format/sqlalchemy/sqlalchemy.go","format/protobuf/generator.go","format/graphql/generator.go"],
 [("prefix mapping","format/common/prefix.go"),("case conversion","util/string.go")])
p("C26","Long flag, short flag and environment variable are equivalent",
 "For every documented option of every command, giving the value by the long flag, by its short alias or by its environment variable (where one exists) has the same effect, the option takes effect on the run, and a flag on the command line overrides the environment variable. Leaving out a required option is an error with no output.",
 ["configurations"],"every command x every documented option x {long, alias, env, env overridden by flag, absent}",
 "No test drives the command line.",
 ["main.go","format/diff/cli.go","format/jpa/cli.go","format/gorm/cli.go","format/sqlalchemy/cli.go","format/protobuf/cli.go","format/liquibase/cli.go","format/mysql/cli.go","format/xlsx/cli.go"],
 [("flag declarations","format/*/cli.go")])
p("C27","No valid schema makes any command crash or fail",
 "Every export, generate and diff command completes successfully, without a crash, on every valid schema, including schemas with no tables, tables with no columns, no primary key, references to absent tables or columns, empty groups, and unusual but legal names, values and descriptions (a default that is not a value of its column's type, or a group whose name cannot be a sheet name of a workbook, may be rejected with an error); and every importer, and every command on a schema file, either succeeds or reports an error on any readable file, it never crashes.",
 ["inputs","configurations"],"every schema in the bound including degenerate seeds, every command, every option setting",
 "Fixtures are well-behaved schemas.",
 ["format/octopus/table.go","format/protobuf/generator.go","format/gorm/gorm.go","format/jpa/kotlin-gen.go","format/staruml/importer.go","format/xlsx/importer.go","format/diff/diff.go"],
 [("all generators","format/*")])
p("C28","Input and output failures are reported, not swallowed",
 "When an input file cannot be read, or an output file or directory cannot be created, written completely or closed, the command exits with a non-zero status and a message; it never reports success with missing or truncated output, and never alters its input files.",
 ["fault_sequences"],"every single file-system call failure (create/mkdir/write/close/read, each occurrence) injected into every command, plus short writes",
 "No test injects failures.",
 ["util/io.go","format/octopus/io.go","format/xlsx/exporter.go","format/jpa/kotlin-gen.go","format/sqlalchemy/generator.go","format/gorm/generator.go"],
 [("file writing","util/io.go"),("command error propagation","format/*/cli.go")])
p("C29","The result of a command depends only on its inputs and options",
 "Whatever sequence of commands ran before and whatever an output path held, a command's output is the same as when run alone in an empty directory: existing output is replaced entirely, input files and unrelated files are left untouched, a missing output directory of a command that writes into a directory is created, and files are created only at the requested place. Initialising creates a schema that every command accepts.",
 ["histories"],"every command history up to length 2 (3 thorough) over all commands sharing a directory and output paths, with pre-existing longer, shorter and read-only output",
 "Tests run each generator once in a fresh place.",
 ["util/io.go","format/octopus/cli.go","main.go","format/jpa/cli.go","format/gorm/cli.go"],
 [("file writing","util/io.go"),("init command","format/octopus/cli.go")])
p("C30","Option values mean their entries, and no value is fatal",
 "The value of a list option - groups, excluded tables, prefixes by group, removed prefixes, annotations by group - means its entries and nothing else: the order of entries for different groups or tables, repeated groups or tables, and entries for groups and tables which do not occur make no difference to the output. Whatever text any option is given, the command either succeeds or ends with an error message; it never crashes and never changes its input files.",
 ["configurations"],"for every text option of every command: all strings of up to 4 (thorough 6) pieces from an alphabet of names, separators and odd characters, and all arrangements of up to four entries",
 "No test gives a malformed option value.",
 ["format/common/prefix.go","format/common/annotation.go","format/octopus/filter.go","format/gorm/gorm_model.go","format/mysql/cli.go"],
 [("prefix and annotation lists","format/common"),("table filter","format/octopus/filter.go")])
p("C31","What an importer writes is a schema every command accepts",
 "Whenever an import command succeeds, on whatever file it was given, the schema file it writes is valid and in the normal form of schema files: every export, generate and diff command loads it, completes with output and leaves it as it is, and its diff with itself is empty (a default that is not a value of its type, or a name that cannot name an output file or a sheet, may be rejected by the command concerned). When the import fails, no schema is written.",
 ["inputs","histories"],"every import of the enumerated files (all MySQL column and constraint spellings, renderings of all models one edit from the seeds in each format, every single mutation or truncation of a file) followed by every command",
 "No test feeds the result of an importer to another command.",
 ["format/mysql/importer.go","format/xlsx/importer.go","format/staruml/importer.go","format/ojson/importer.go","format/octopus/table.go","format/octopus/column.go"],
 [("importers","format/*/importer.go"),("normalisation and validation","format/octopus")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x["title"]) for x in P))
