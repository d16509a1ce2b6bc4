#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here so that they are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files) - 1)]} for i, m in enumerate(mech)]}
    if state: a["state"] = [{"name": state, "meaning": "what the specification's variables hold for this property", "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

OCT = ["format/octopus/table.go", "format/octopus/column.go", "format/octopus/types.go", "format/octopus/io.go"]

p("C01", "Only well-formed octopus schemas are accepted, and exactly those",
  "Every command that reads an octopus schema file succeeds when each column has a name, a known type (canonical or documented synonym, any letter case) and legal enum/set value lists, and otherwise fails with a non-zero exit status without writing its output. An auto-increment flag on a non-integer column is never fatal and is treated as absent in everything the command writes.",
  ["inputs"], "every octopus schema file (well-formed or with one or several defects at any position) and every command that reads one",
  "The defect can sit in any column of any table and each command has its own path from load to output; tests load a few hand-written well-formed schemas through one exporter.",
  OCT, ["octopus.LoadSchema", "Schema.Normalize", "Column.Validate", "IsValidColType"], "schema file, output file, exit status", "CLI exit status and presence of the output file")
p("C02", "Artefacts depend only on the canonical form of a schema",
  "Two octopus files that differ only in type synonyms or letter case, in the order of tables, or in JSON layout (key order, whitespace, explicit default values) yield byte-identical output from every export, generate and diff command; the order of columns within a table is always preserved. Every octopus file the tool writes is canonical: types are canonical names, tables are sorted by (group, name), and reading it back changes nothing.",
  ["inputs"], "every schema, every re-spelling of it, every command and option set",
  "It is a relation between two runs over arbitrary re-spellings of arbitrary schemas; a unit test fixes one spelling.",
  OCT, ["Column.NormalizeType", "TableSlice.Less", "Schema.Normalize", "Schema.ToJson"], "canonical schema", "output bytes of each command")
p("M01", "Exported MySQL DDL builds exactly the schema",
  "The statements written by `export mysql`, executed in order on an empty database, each succeed and leave exactly the selected tables: the same columns in order with the documented MySQL type, size/scale, enum/set members, NOT NULL, AUTO_INCREMENT, DEFAULT, ON UPDATE and COMMENT, the same primary key, one unique key over the unique columns named table+suffix, and the same named indexes. String values survive quoting, function values (`fn::`) are emitted as calls and never as literals.",
  ["inputs"], "every well-formed schema whose identifiers are legal unquoted MySQL names, every group filter and unique-name suffix",
  "Correctness is about executing the whole DDL against a database state for arbitrary column-attribute combinations; the test compares one fixed string.",
  ["format/mysql/exporter.go", "format/mysql/cli.go"], ["Exporter.Export", "Exporter.ExportTable", "ToMysqlColumnType", "ColumnConstraints"], "tables of a database", "DDL file")
p("M02", "MySQL import recovers the schema a DDL script declares",
  "`import mysql` yields one table per CREATE TABLE statement not excluded by name (other statements are ignored), with every column in order and its canonical type, size/scale, enum/set members, nullability, auto-increment, literal or function default, ON UPDATE, comment, primary key, unique and index membership as declared, whether a constraint is written inline or at table level. The author, version and exclusion options are honoured, and a script that does not parse fails without output.",
  ["inputs"], "every DDL script in the supported CREATE TABLE dialect, every spelling of each declaration, every exclusion list",
  "The same table can be declared in very many spellings (inline or table-level keys, type synonyms, quoting, comments between statements); the test imports one script.",
  ["format/mysql/importer.go", "format/mysql/cli.go"], ["Importer.Import", "mysqlColumnType", "ConstraintPrimaryKey handling"], "schema", "imported octopus file")
p("M03", "MySQL export followed by import is lossless",
  "Importing the DDL that `export mysql` wrote gives back the exported tables: names, columns in order, types, sizes, enum members, nullability, keys, indexes, auto-increment, defaults, ON UPDATE and comments all equal the original up to the documented MySQL type mapping (boolean and bit(1), date/time sizes, groups, class names and references are not represented in DDL). Exporting the imported schema again reproduces the same DDL.",
  ["inputs", "histories"], "every well-formed schema representable in MySQL DDL and any number of export/import rounds",
  "It composes two independently written translators over arbitrary schemas; each is tested alone on one example.",
  ["format/mysql/exporter.go", "format/mysql/importer.go"], ["Exporter.Export", "Importer.Import"], "schema before and after", "octopus file produced by the import")
p("X01", "Excel export followed by import is lossless",
  "Exporting a schema to xlsx and importing the workbook gives back an equal schema - meta data, groups, tables, class names, descriptions, columns in order with type, size, scale, nullability, keys, auto-increment, default, ON UPDATE, references and indexes - in both the `not null` and the `nullable` column layout. What a workbook cannot express is excepted: enum and set members, the unique mark of a primary-key column, no group (it comes back as Common), and attribute values with commas; a reference without relationship comes back as n:1. Repeating the round trip changes nothing.",
  ["inputs", "histories"], "every well-formed schema, both column layouts, any number of rounds",
  "Each attribute is packed into shared text cells (type, key, attributes, reference), so losses depend on combinations of attributes that a single example does not contain.",
  ["format/xlsx/exporter.go", "format/xlsx/importer.go", "util/types.go"], ["Exporter.Export", "Importer.Import", "util.ParseType"], "schema before and after, workbook cells", "imported octopus file")
p("X02", "Excel workbooks have the documented layout and any such workbook imports",
  "The workbook has a `Meta` sheet with author, name and version, one sheet per table group (`Common` for none), and in it one block per table: a header row, the table row (`table` type, class attribute, description), one row per column with reference (`>`, `<`, `-` prefixes), type, key, nullability and attributes, and one `I` row per index column. Importing a workbook written by hand in that layout yields the schema it describes.",
  ["inputs"], "every well-formed schema and every hand-written workbook in the documented layout (optional blank rows, either nullability header, attribute order and letter case as documented)",
  "Tests only feed the importer what the exporter wrote, so a matching error on both sides, or a documented spelling the exporter never produces, is invisible.",
  ["format/xlsx/exporter.go", "format/xlsx/importer.go"], ["Exporter.fillGroupSheet", "Importer.getSheetTables", "Importer.getColumnFromRow"], "workbook cells", "xlsx file; imported octopus file")
p("I01", "Octopus v1 (ojson) files convert without loss",
  "`import ojson` maps every v1 table and column to the v2 schema, keeping author, name, version, table description, group and class name, and per column name, type (in its v2 spelling; v1 char is varchar, smallint int32, double decimal), description, size, scale, nullability, primary/unique key, auto-increment, default value and the referenced table and column. Tables come out in canonical order and columns in their original order; a type neither version knows fails without output.",
  ["inputs"], "every v1 file",
  "No test covers the importer; a field dropped or crossed with another needs each field set independently to be seen.",
  ["format/ojson/importer.go", "format/ojson/table.go", "format/ojson/column.go"], ["Importer.Import", "Schema.ToSchema"], "schema", "imported octopus file")
p("I02", "StarUML ER models convert to the schema they draw",
  "`import staruml` yields one table per entity of every ER data model of the project with its columns in order: type, size and scale (from the length or the type text), documentation, primary key, unique, nullability, and on each foreign-key column a reference to the table and column it points to. The project name becomes the version of the schema.",
  ["inputs"], "every StarUML project with ER data models, foreign keys in any order including forward and self references",
  "No test covers the importer; references are resolved by id across entities, so the order in which entities appear matters.",
  ["format/staruml/importer.go", "format/staruml/staruml.go"], ["Importer.Import"], "schema", "imported octopus file")
p("L01", "Liquibase changelogs build exactly the schema",
  "Applying the changesets of `generate liquibase` in order to an empty database succeeds step by step and ends with exactly the selected tables: columns in order with the mapped type, nullability, auto-increment, typed default value, remarks (column remarks only with --comments), primary key (inline if single, one addPrimaryKey if composite), and a unique constraint over the unique columns named table+suffix.",
  ["inputs", "histories"], "every well-formed schema, every option set",
  "It is a statement about a sequence of database states for arbitrary schemas; liquibase output has no test at all.",
  ["format/liquibase/generator.go", "format/liquibase/cli.go"], ["Generator.generateAll", "newCreateTableChangeSet", "newLqColumn", "newLqDefaultValue"], "database state per changeset", "changelog file")
p("L02", "Liquibase diffs migrate the old database to the new schema",
  "Applying the changesets of `diff liquibase` in order to the database of the old schema succeeds step by step (no change refers to a missing or already existing table, column or constraint) and ends in exactly the database of the new schema: tables, columns, types, nullability, auto-increment added, defaults, primary key, unique constraints, remarks when --comments is given, and column order as far as liquibase can express it. Nothing that exists on both sides is ever dropped and recreated; a removed and an added table or column with identical definitions are one that was renamed, and keep their data.",
  ["inputs", "histories"], "every pair of well-formed schemas and every option set",
  "Safety of each intermediate step and the end state depend on the interplay of additions, removals, renames, key and constraint changes in one diff; there is no test of diff, and examples cannot cover pairs of schemas.",
  ["format/liquibase/diff.go", "format/liquibase/generator.go", "format/diff/cli.go"], ["Diff.generate", "Diff.diffTable", "Diff.diffColumn"], "database state per changeset", "changelog file")
p("L03", "Changesets are uniquely identified, minimal and attributed",
  "In every generated or diffed changelog each changeset id is unique, every changeset carries at least one change, and its author is the requested author (else the schema author). A diff of two schemas that describe the same database (with --comments, also the same remarks) is empty, and a diff touches no table whose definition did not change.",
  ["inputs"], "every schema and pair of schemas, every option set",
  "Uniqueness and minimality are global facts over the whole changelog and depend on how major/minor counters interact with arbitrary mixes of changes.",
  ["format/liquibase/diff.go", "format/liquibase/generator.go"], ["LqId", "Diff.generate", "newCreateTableChangeSet"], "set of ids used, per-table change lists", "changelog file")
p("D01", "The markdown diff reports every change and nothing else",
  "`diff md` lists, under the heading of each affected table, exactly the changes that turn the old schema into the new one: table created, dropped or renamed; column added, dropped, renamed, retyped; nullability, auto-increment and default changes; primary-key and unique-constraint updates; and comments when --comments is given. Unaffected tables have no heading, headings are sorted, and the header names both versions.",
  ["inputs"], "every pair of well-formed schemas and every option set",
  "Completeness quantifies over all combinations of simultaneous changes; there is no test of diff.",
  ["format/diff/diff.go", "format/diff/markdown.go", "format/diff/changeset.go"], ["getDiff", "diffTable", "diffColumn", "MarkdownChangeSetWriter.Write"], "set of changes per table", "markdown file")
p("D02", "The flyway diff is SQL that performs the migration",
  "Executing the statements of `diff flyway` in order on the MySQL database of the old schema succeeds statement by statement and ends in the MySQL database of the new schema: tables, columns in order, types, nullability, auto-increment, defaults, primary keys and unique keys, and comments with --comments (secondary indexes and ON UPDATE are not part of the diff). The data of tables and columns that survive is preserved, renamed ones included.",
  ["inputs", "histories"], "every pair of well-formed schemas and every option set",
  "Each statement must be valid in the state its predecessors leave behind, for arbitrary combinations of changes; there is no test of diff.",
  ["format/diff/diff.go", "format/diff/mysql.go", "format/diff/flyway.go"], ["getDiff", "MysqlQueryBuilder.ToSQL", "FlywayChangeSetWriter.Write"], "database state per statement", "SQL file")
p("F01", "Group filters select exactly the tables of the named groups",
  "With --groups, every export, generate and diff command that offers the option behaves as if the schema contained only the tables whose group is one of the comma-separated names (compared whole and case-sensitively); in a diff, tables of other groups are neither created, altered, renamed nor dropped. A reference to an unselected table may still be named by gorm and kt, and is left out by protobuf and dbml. Without the option every table is included.",
  ["inputs"], "every schema, every group list (unknown names, names that are prefixes of others, the unnamed group), every command with the option",
  "The filter is threaded separately through every command; no test uses it.",
  ["format/octopus/filter.go", "format/mysql/exporter.go", "format/liquibase/generator.go", "format/diff/diff.go", "format/gorm/generator.go", "format/jpa/kotlin-gen.go", "format/protobuf/generator.go", "format/sqlalchemy/generator.go"], ["GetTableFilterFn", "TableFilter option of each generator"], "set of selected tables", "artefacts of each command")
p("R01", "The same input always yields the same bytes",
  "Running any command again on the same files with the same options produces byte-identical output files (workbooks: identical parts) and the same exit status, regardless of earlier runs, of a pre-existing output file, or of hash-map iteration order.",
  ["schedules", "histories"], "every command, every input, every repetition",
  "Go randomises map iteration per run, so an order leak shows up only across repeated runs on inputs with several candidates; tests run each generator once on small inputs.",
  ["format/liquibase/diff.go", "format/diff/diff.go", "format/gorm/gorm.go", "format/protobuf/generator.go", "format/jpa/kotlin-gen.go", "format/sqlalchemy/generator.go"], ["map iteration in renamed tables/columns", "StringSet.Slice", "import lists"], "output bytes per run", "output files")
p("R02", "Commands never touch their inputs, and fail cleanly",
  "No command modifies, truncates or removes any of its input files or any other file besides its output. A command that fails (missing, unreadable, malformed or invalid input, an output that cannot be opened or written, missing or unknown option) exits non-zero with a message, and if nothing could be written leaves a pre-existing output file as it was; a command that exits zero has written its complete output.",
  ["crash_points", "inputs"], "every command and every kind of failing or succeeding invocation",
  "Failure paths differ per command and are not exercised by any test.",
  ["main.go", "format/octopus/io.go", "format/mysql/cli.go", "format/xlsx/cli.go", "util/io.go"], ["LoadSchema", "Action functions", "WriteStringToFile"], "workspace files, exit status", "files before and after a command")
p("G01", "GORM structs mirror the tables and compile",
  "`generate gorm` writes one Go struct per selected table into a file that parses as Go with no unused or missing import: one field per column not covered by an embedded model, in order, with the Go type for the column type and nullability and a gorm tag carrying exactly column name (if it differs), type with size, primary key, unique or unique index, index with position, auto-increment and not-null, one association field per reference, and a TableName method returning the table name. An embedded model replaces exactly its columns and only when all of them are present.",
  ["inputs"], "every well-formed schema and every option set",
  "Field type, tag and import list depend on combinations of column attributes over the whole file; tests compare two fixed outputs.",
  ["format/gorm/generator.go", "format/gorm/gorm.go", "format/gorm/gorm_model.go", "format/gorm/cli.go"], ["Generator.Generate", "NewGoStruct", "NewGoField", "embedded model selection"], "structs, fields, imports", "Go source file")
p("K01", "Kotlin entities mirror the tables",
  "`generate kt` writes for each selected table a data class annotated with its table name and unique constraint, one property per column in order with the Kotlin type, nullability and default value, and @Column attributes (name, nullable, length, precision, scale), @Id/@GeneratedValue/@Lob and audit annotations where they apply, and an id class for composite keys; every type used is imported, nothing else is, and names that are Kotlin keywords are escaped. Custom annotations, id entity, relation annotation, unique suffix, package and repository options are applied as documented; tables without primary key get no repository.",
  ["inputs"], "every well-formed schema and every option set",
  "Annotations, imports and id classes depend on combinations of attributes and options; the test compares one fixed class.",
  ["format/jpa/kotlin-gen.go", "format/jpa/kotlin.go", "format/jpa/cli.go"], ["KotlinGenerator.Generate", "NewKotlinClass", "NewKotlinField"], "classes, properties, imports", "Kotlin source files")
p("S01", "SQLAlchemy models mirror the tables",
  "`generate sqlalchemy` writes for each selected table a class with its __tablename__ and one attribute per column in order, declared with the SQLAlchemy type (and length or precision), primary_key, autoincrement, unique and nullable of the column, and several unique columns as one named UniqueConstraint; created_at and updated_at datetimes are filled in by default. Every name used is imported or defined in the file, attribute names are legal Python identifiers and map to the column name when they differ from it. The output is one file, or one file per table in a directory.",
  ["inputs"], "every well-formed schema within the supported types and every option set, single-file and one-file-per-table output",
  "Import sets, renamed attributes and composite constraints depend on the whole file; tests compare one fixed class.",
  ["format/sqlalchemy/generator.go", "format/sqlalchemy/sqlalchemy.go", "format/sqlalchemy/cli.go"], ["Generator.Generate", "NewSaClass", "NewSaField"], "classes, attributes, imports", "Python source files")
p("P01", "Protobuf messages are wire-valid mirrors of the tables",
  "`generate pb` writes one message per selected table with one field per column in order, of the protobuf type for the column type (types with a counterpart); field numbers within a message are positive and unique, columns are numbered 1, 2, 3 and so on so that appending columns never renumbers existing ones, and relation fields take the numbers asked for with the tag options unless these would overlap the columns. The timestamp type is imported exactly when used, relation fields name messages of the same file (repeated for 1:n), and package, go_package and prefix options are honoured.",
  ["inputs"], "every well-formed schema within the supported types and every option set",
  "Uniqueness and stability of tags depend on the number of columns and relations together with the tag options; tests compare fixed outputs without options.",
  ["format/protobuf/generator.go", "format/protobuf/cli.go"], ["Generator.Generate", "PbMessage fields", "relation tag numbering"], "messages, fields, tags", "proto file")
p("Q01", "GraphQL schemas mirror the tables",
  "`generate graphql` writes one object type per table with one field per column in order: the single primary key as ID, other columns with the GraphQL type for the column type, and a trailing `!` exactly on columns that cannot be null, plus one query entry per type named by its plural. Type names are the class name or derived from the table name, field names are derived from column names as in the other generators.",
  ["inputs"], "every well-formed schema",
  "There is no test of this generator; non-null marks and ID selection depend on combinations of key and nullability.",
  ["format/graphql/generator.go", "format/graphql/cli.go"], ["Generator.Generate", "NewGqlClass"], "types, fields", "graphqls file")
p("E01", "DBML, QuickDBD and PlantUML diagrams show every table, column and link",
  "Each diagram export (dbml with its group filter, quickdbd, plantuml) lists every selected table once, with every column once and in order, its type, key, unique, nullability, auto-increment, default and description attributes as the format expresses them, and exactly one link of the right direction and cardinality per column reference between the tables shown. The text is well formed in the target language, also when links point forward, backward or to the own table.",
  ["inputs"], "every well-formed schema and option set of the three exporters",
  "None of the three has a test; links are emitted inline or deferred depending on table order.",
  ["format/dbml/exporter.go", "format/quickdbd/exporter.go", "format/plantuml/generator.go"], ["dbml.Exporter.Export", "quickdbd.Exporter.Export", "plantuml.Generator.Generate"], "tables, columns, links", "diagram files")
p("N01", "All generators agree on class and field names",
  "For one schema, one prefix map and one prefix-removal list, the GORM, JPA, SQLAlchemy and Protobuf artefacts name the model of a table identically: the class name if given (not in Protobuf), else the group's prefix from a plain or `group:prefix` map followed by the camel-cased table name after taking off the listed prefixes one after another in their order; GraphQL does the same without prefixes. Field names are derived from column names so that distinct ordinary column names stay distinct, and a field maps back to its column name where the two differ.",
  ["inputs"], "every well-formed schema, every prefix map and prefix-removal list",
  "It relates the outputs of five independent generators; each is tested separately, if at all.",
  ["format/common/prefix.go", "format/gorm/generator.go", "format/jpa/kotlin.go", "format/sqlalchemy/sqlalchemy.go", "format/graphql/generator.go", "format/protobuf/generator.go", "util/string.go"], ["PrefixMapper", "NewGoStruct", "NewKotlinClass", "NewSaClass", "NewGqlClass"], "model names per table", "artefacts of five generators")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
