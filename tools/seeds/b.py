COMMON = '''set -e
OCT="$PWD/oct"
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
'''
SEEDS = [
 dict(id="c01-set-64", property="C01",
  edits=[("format/octopus/column.go", "if memberCount <= 0 || memberCount > 64 {", "if memberCount <= 0 || memberCount >= 64 {")],
  needs="a set column with exactly 64 members",
  what="a legal schema whose set column has 64 members is rejected",
  demo=COMMON + '''
V=$(seq -s, 1 64 | sed 's/[0-9][0-9]*/"m&"/g')
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"s","type":"set","values":['$V']}]}]}' > "$D/a.json"
"$OCT" export mysql --input "$D/a.json" --output "$D/o.sql"
grep -q "'m64'" "$D/o.sql"
'''),
 dict(id="c02-sort-group-case", property="C02",
  edits=[("format/octopus/table.go", """	if s[i].Group < s[j].Group {
		return true
	}
	if s[i].Group == s[j].Group {
		return s[i].Name < s[j].Name
	}
	return false
""", """	if s[i].Group != s[j].Group {
		return s[i].Group < s[j].Group
	}
	return len(s[i].Name) < len(s[j].Name) || (len(s[i].Name) == len(s[j].Name) && s[i].Name < s[j].Name)
""")],
  needs="two tables of one group where the longer name sorts first alphabetically",
  what="tables are ordered by the length of their name before the name itself, so written files are not canonical",
  demo=COMMON + '''
cat > "$D/a.sql" <<'J'
CREATE TABLE zoo (id bigint NOT NULL);
CREATE TABLE animal (id bigint NOT NULL);
J
"$OCT" import mysql --input "$D/a.sql" --output "$D/o.json"
python3 - "$D/o.json" <<'P'
import json, sys
n = [t["name"] for t in json.load(open(sys.argv[1]))["tables"]]
sys.exit(0 if n == ["animal", "zoo"] else 1)
P
'''),
 dict(id="m01-index-of-key", property="M01",
  edits=[("format/mysql/exporter.go", """	for _, index := range table.Indices {
		indexColumns""", """	for i := 0; i < len(table.Indices); i++ {
		index := table.Indices[i]
		// the primary key is an index already
		if len(index.Columns) == len(pkColumns) && util.QuoteAndJoin(index.Columns, "`", ", ") == strings.Join(pkColumns, ", ") {
			continue
		}
		indexColumns""")],
  needs="a named index over exactly the primary key columns",
  what="a declared index over the primary key columns is not created",
  demo=COMMON + '''
cat > "$D/a.json" <<'J'
{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"a","type":"int32"}],"indices":[{"name":"ix","columns":["id"]}]}]}
J
"$OCT" export mysql --input "$D/a.json" --output "$D/o.sql"
grep -q 'ix' "$D/o.sql"
'''),
 dict(id="m02-inline-unique-null", property="M02",
  edits=[("format/mysql/importer.go", """		case ast.ColumnOptionNull:
			column.NotNull = false""", """		case ast.ColumnOptionNull:
			column.NotNull = false
			column.DefaultValue = \"\"""")],
  needs="a column declared with a default value followed by an explicit NULL",
  what="the default value of a column that is explicitly nullable is lost when NULL follows DEFAULT",
  demo=COMMON + '''
echo "CREATE TABLE t (id bigint NOT NULL, n int DEFAULT 7 NULL);" > "$D/a.sql"
"$OCT" import mysql --input "$D/a.sql" --output "$D/o.json"
grep -q '"default": "7"' "$D/o.json"
'''),
 dict(id="m03-wide-char", property="M03",
  edits=[("format/mysql/importer.go", """	if colDef.Tp.Flen > 0 {
		size = uint16(colDef.Tp.Flen)
	}""", """	if colDef.Tp.Flen > 0 && colDef.Tp.Flen < 1<<15 {
		size = uint16(colDef.Tp.Flen)
	}""")],
  needs="a varchar or varbinary of 32768 characters or more",
  what="the size of very wide columns is lost on the way back",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"b","type":"varbinary","size":40000}]}]}' > "$D/a.json"
"$OCT" export mysql --input "$D/a.json" --output "$D/o.sql"
"$OCT" import mysql --input "$D/o.sql" --output "$D/o.json"
grep -q '40000' "$D/o.json"
'''),
 dict(id="x01-relation-one-one", property="X01",
  edits=[("format/xlsx/importer.go", """				case refPrefixOneToOne:
					relationship = octopus.RefOneToOne
					table = table[1:]
				}""", """				case refPrefixOneToOne:
					if !strings.HasPrefix(column, "id") {
						relationship = octopus.RefOneToOne
					}
					table = table[1:]
				}""")],
  needs="a 1:1 reference to a column whose name starts with id",
  what="a one-to-one reference to an id column comes back as many-to-one",
  demo=COMMON + '''
echo '{"tables":[{"name":"u","columns":[{"name":"id","type":"int64","pk":true,"notnull":true}]},{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"u_id","type":"int64","ref":{"table":"u","column":"id","relationship":"1:1"}}]}]}' > "$D/a.json"
"$OCT" export xlsx --input "$D/a.json" --output "$D/o.xlsx"
"$OCT" import xlsx --input "$D/o.xlsx" --output "$D/o.json"
grep -q '"1:1"' "$D/o.json"
'''),
 dict(id="x02-blank-rows", property="X02",
  edits=[("format/xlsx/importer.go", """		// skip if column name is empty
		if columnName == "" {
			continue
		}
""", """		// a table ends at an empty row
		if columnName == "" {
			if tableName == "" && typeValue == "" {
				tables = append(tables, lastTable)
				lastTable = nil
			}
			continue
		}
""")],
  needs="a workbook with an empty row between the columns (or indexes) of one table",
  what="rows after an empty row inside a table block are ignored",
  demo=COMMON + '''
cat > "$D/mk.py" <<'P'
import sys, zipfile
rows = [["table/ref.","column","type","key","not null","attributes","description"],["t","","table","","","",""],["","id","int64","P","O","",""],["","","","","","",""],["","b","int32","","","",""]]
def cell(r,c,v): return '<c r="%s%d" t="inlineStr"><is><t>%s</t></is></c>' % ("ABCDEFG"[c], r+1, v)
sh = '<?xml version="1.0" encoding="UTF-8"?><worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><sheetData>' + "".join('<row r="%d">%s</row>' % (i+1, "".join(cell(i,j,v) for j,v in enumerate(r))) for i,r in enumerate(rows)) + '</sheetData></worksheet>'
z = zipfile.ZipFile(sys.argv[1], "w")
z.writestr("[Content_Types].xml", '<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/><Override PartName="/xl/worksheets/sheet1.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/></Types>')
z.writestr("_rels/.rels", '<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>')
z.writestr("xl/workbook.xml", '<?xml version="1.0" encoding="UTF-8"?><workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"><sheets><sheet name="g" sheetId="1" r:id="rId1"/></sheets></workbook>')
z.writestr("xl/_rels/workbook.xml.rels", '<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="worksheets/sheet1.xml"/></Relationships>')
z.writestr("xl/worksheets/sheet1.xml", sh)
z.close()
P
python3 "$D/mk.py" "$D/a.xlsx"
"$OCT" import xlsx --input "$D/a.xlsx" --output "$D/o.json"
grep -q '"b"' "$D/o.json"
'''),
 dict(id="i01-ref-table-only", property="I01",
  edits=[("format/ojson/importer.go", "	if column1.Ref != nil {\n", "	if column1.Ref != nil && column1.Ref.Column != column1.Name {\n")],
  needs="a v1 reference to a column of the same name",
  what="references between columns of the same name are dropped",
  demo=COMMON + '''
echo '{"tables":[{"name":"u","columns":[{"name":"uid","type":"long","pk":true}]},{"name":"t","columns":[{"name":"uid","type":"long","ref":{"table":"u","column":"uid"}}]}]}' > "$D/a.ojson"
"$OCT" import ojson --input "$D/a.ojson" --output "$D/o.json"
grep -q '"ref"' "$D/o.json"
'''),
 dict(id="i02-length-scale", property="I02",
  edits=[("format/staruml/importer.go", """			if size == 0 {
				size = colSize
			}
""", """			if size == 0 {
				size = colSize
			} else {
				colScale = 0
			}
""")],
  needs="a column with both a length attribute and size and scale in its type text",
  what="the scale of a decimal is lost when the length is given as well",
  demo=COMMON + '''
cat > "$D/a.mdj" <<'J'
{"_type":"Project","_id":"P","name":"1.0","ownedElements":[{"_type":"ERDDataModel","_id":"M","name":"m","ownedElements":[{"_type":"ERDEntity","_id":"E","name":"t","columns":[{"_type":"ERDColumn","_id":"C","name":"p","type":"decimal(10,2)","length":"10"}]}]}]}
J
"$OCT" import staruml --input "$D/a.mdj" --output "$D/o.json"
grep -q '"scale": 2' "$D/o.json"
'''),
 dict(id="l01-zero-default", property="L01",
  edits=[("format/liquibase/generator.go", """NewBool(strings.ToLower(column.DefaultValue) == "true" || column.DefaultValue == "1")""", """NewBool(column.DefaultValue == "true" || column.DefaultValue == "1")""")],
  needs="a boolean column whose default is spelled True or TRUE",
  what="a boolean default TRUE is generated as false",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"b","type":"boolean","default":"TRUE"}]}]}' > "$D/a.json"
"$OCT" generate liquibase --input "$D/a.json" --output "$D/o.yml"
grep -q 'defaultValueBoolean: true' "$D/o.yml"
'''),
 dict(id="l03-renamed-table-id", property="L03",
  edits=[("format/liquibase/diff.go", """		id.bumpMajor()

		// drop old unique constraint
""", """
		// drop old unique constraint
""")],
  needs="one diff that both drops or creates a table and renames another one",
  what="the changesets of a renamed table share the major number of the change before it, so ids repeat",
  demo=COMMON + '''
cat > "$D/a.json" <<'J'
{"tables":[{"name":"a","columns":[{"name":"id","type":"int64","pk":true},{"name":"u","type":"varchar","size":5,"unique":true}]},{"name":"z","columns":[{"name":"x","type":"int32"}]}]}
J
cat > "$D/b.json" <<'J'
{"tables":[{"name":"b","columns":[{"name":"id","type":"int64","pk":true},{"name":"u","type":"varchar","size":5,"unique":true}]}]}
J
"$OCT" diff liquibase --from "$D/a.json" --to "$D/b.json" --output "$D/o.yml"
[ -z "$(grep -o 'id: .*' "$D/o.yml" | sort | uniq -d)" ]
'''),
 dict(id="d01-rename-scale", property="D01",
  edits=[("format/octopus/column.go", "		c.Scale == target.Scale &&\n", "")],
  needs="a dropped and an added column whose definitions differ only in the scale",
  what="a column replaced by one of another scale is reported as renamed",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"a","type":"decimal","size":10,"scale":2}]}]}' > "$D/a.json"
echo '{"version":"2","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"b","type":"decimal","size":10,"scale":4}]}]}' > "$D/b.json"
"$OCT" diff md --from "$D/a.json" --to "$D/b.json" --output "$D/o.md"
if grep -q 'rename' "$D/o.md"; then exit 1; fi
'''),
 dict(id="d02-add-after", property="D02",
  edits=[("format/diff/diff.go", """				if c == column && i > 0 {
					addColumn.AfterColumn = table.Columns[i-1]
				}""", """				if c == column && i > 0 && oldColumnByName[table.Columns[i-1].Name] != nil {
					addColumn.AfterColumn = table.Columns[i-1]
				}""")],
  needs="two columns added next to each other",
  what="a column added behind another new column is put first",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true}]}]}' > "$D/a.json"
echo '{"version":"2","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"a","type":"int32"},{"name":"b","type":"int64"}]}]}' > "$D/b.json"
"$OCT" diff flyway --from "$D/a.json" --to "$D/b.json" --output "$D/o.sql"
if grep -q FIRST "$D/o.sql"; then exit 1; fi
'''),
 dict(id="f01-filter-prefix", property="F01",
  edits=[("format/octopus/filter.go", "			if table.Group == group {", "			if table.Group == group || (group != \"\" && len(table.Group) == len(group) && strings.EqualFold(table.Group, group)) {")],
  needs="two groups whose names differ only in letter case",
  what="--groups selects tables of a group that differs in letter case",
  demo=COMMON + '''
echo '{"tables":[{"name":"a","group":"Core","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"b","group":"core","columns":[{"name":"id","type":"int64","pk":true}]}]}' > "$D/a.json"
"$OCT" export mysql --input "$D/a.json" --output "$D/o.sql" --groups core
[ "$(grep -c 'CREATE TABLE' "$D/o.sql")" = 1 ]
'''),
 dict(id="r01-map-order", property="R01",
  edits=[("format/gorm/gorm_model.go", "	sort.Strings(names)\n	return names", "	if len(names) > 2 {\n		sort.Strings(names)\n	}\n	return names")],
  needs="exactly two registered embedded models that both match one table",
  what="with two matching embedded models the order of the embedded fields follows map iteration",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"created_at","type":"datetime"},{"name":"updated_at","type":"datetime"},{"name":"deleted_at","type":"datetime"},{"name":"by_who","type":"varchar","size":10}]}]}' > "$D/a.json"
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do "$OCT" generate gorm --input "$D/a.json" --output "$D/o.go" --embed 'Audit:by_who'; md5sum < "$D/o.go"; done | sort -u > "$D/sums"
[ "$(wc -l < "$D/sums")" = 1 ]
'''),
 dict(id="g01-index-priority", property="G01",
  edits=[("format/gorm/generator.go", """					Priority:    i + 1,
					SingleIndex: singleIndexColumn,
				})
				break
			}
		}
	}""", """					Priority:    i + 1,
					SingleIndex: singleIndexColumn,
				})
				return gormIndexTags
			}
		}
	}""")],
  needs="a column that belongs to two indexes",
  what="a column carries the tag of only the first of its indexes",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"a","type":"int32"},{"name":"b","type":"int32"}],"indices":[{"name":"i1","columns":["a"]},{"name":"i2","columns":["b","a"]}]}]}' > "$D/a.json"
"$OCT" generate gorm --input "$D/a.json" --output "$D/o.go"
grep -q 'index:i1;index:i2,priority:2' "$D/o.go"
'''),
 dict(id="k01-idclass-import", property="K01",
  edits=[("format/jpa/kotlin-gen.go", """		for _, imp := range field.Imports {
			if strings.HasPrefix""", """		// id fields are covered by the id class
		if column.PrimaryKey && pkFieldCount > 1 {
			continue
		}
		for _, imp := range field.Imports {
			if strings.HasPrefix""")],
  needs="a composite primary key with a date, time, decimal or datetime column that no other column has",
  what="the import of a type used only by composite key columns is missing",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"d","type":"date","pk":true,"notnull":true}]}]}' > "$D/a.json"
"$OCT" generate kt --input "$D/a.json" --output "$D/o" --package com.x
grep -rq 'import java.time.LocalDate' "$D/o"
'''),
 dict(id="s01-import-leak", property="S01",
  edits=[("format/sqlalchemy/generator.go", """		if len(uniqueFieldNames) > 1 {
			appendLine""", """		if len(uniqueFieldNames) > 1 && len(uniqueFieldNames) < len(class.Fields) {
			appendLine""")],
  needs="a table in which every column is unique",
  what="the unique constraint is left out when it covers all columns",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"a","type":"int64","unique":true,"pk":true},{"name":"b","type":"int32","unique":true}]}]}' > "$D/a.json"
"$OCT" generate sqlalchemy --input "$D/a.json" --output "$D/o"
grep -q "UniqueConstraint('a', 'b'" "$D/o/t.py"
'''),
 dict(id="p01-tag-overlap", property="P01",
  edits=[("format/protobuf/generator.go", "		if relTagStart < 0 || relTagStart <= maxTag {", "		if relTagStart < 0 || relTagStart < maxTag {")],
  needs="a relation tag start equal to the number of columns",
  what="a relation field takes the number of the last column",
  demo=COMMON + '''
echo '{"tables":[{"name":"u","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"u_id","type":"int64","ref":{"table":"u","column":"id","relationship":"n:1"}}]}]}' > "$D/a.json"
"$OCT" generate pb --input "$D/a.json" --output "$D/o.proto" --package p --goPackage p --relationTagStart 2
grep -q ' u = 3;' "$D/o.proto"
'''),
 dict(id="q01-composite-id", property="Q01",
  edits=[("format/graphql/generator.go", "	if len(pkFields) == 1 {\n", "	if len(pkFields) == 1 && pkFields[0] == fields[0] {\n")],
  needs="a single primary key that is not the first column",
  what="the primary key is not typed ID when it is not the first column",
  demo=COMMON + '''
echo '{"name":"n","version":"1","tables":[{"name":"t","columns":[{"name":"a","type":"int32"},{"name":"id","type":"int64","pk":true}]}]}' > "$D/a.json"
"$OCT" generate graphql --input "$D/a.json" --output "$D/o"
grep -rq 'id: ID!' "$D/o"
'''),
 dict(id="e01-dbml-twin-links", property="E01",
  edits=[("format/dbml/exporter.go", """				} else {
					deferredRefs = append""", """				} else if n := len(deferredRefs); n == 0 || !strings.HasSuffix(deferredRefs[n-1], fmt.Sprintf(" %s.%s", ref.Table, ref.Column)) {
					deferredRefs = append""")],
  needs="two references in a row to the same column of a table that is defined later",
  what="of two adjacent references to one later table only the first link is drawn",
  demo=COMMON + '''
echo '{"tables":[{"name":"user","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"doc","columns":[{"name":"id","type":"int64","pk":true},{"name":"created_by","type":"int64","ref":{"table":"user","column":"id"}},{"name":"updated_by","type":"int64","ref":{"table":"user","column":"id"}}]}]}' > "$D/a.json"
"$OCT" export dbml --input "$D/a.json" --output "$D/o.dbml"
[ "$(grep -c 'user.id' "$D/o.dbml")" = 2 ]
'''),
 dict(id="e01-plantuml-key-mark", property="E01",
  edits=[("format/plantuml/generator.go", """			if !column.PrimaryKey && !separatorAdded {
				separatorAdded = true
				result = append(result, "    --")
			}
			result = append""", """			if !column.PrimaryKey && !separatorAdded {
				separatorAdded = true
				result = append(result, "    --")
			} else if column.PrimaryKey && separatorAdded && column.Ref != nil {
				// shown by the link
				column = &octopus.Column{Name: column.Name, Type: column.Type, NotNull: column.NotNull, Ref: column.Ref}
			}
			result = append""")],
  needs="a primary key column that follows a non-key column and refers to another table",
  what="the key mark of such a column is left out",
  demo=COMMON + '''
echo '{"tables":[{"name":"u","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"t","columns":[{"name":"a","type":"int32"},{"name":"u_id","type":"int64","pk":true,"ref":{"table":"u","column":"id","relationship":"n:1"}}]}]}' > "$D/a.json"
"$OCT" generate plantuml --input "$D/a.json" --output "$D/o.puml"
grep -q 'u_id: int64 <<PK>>' "$D/o.puml"
'''),
 dict(id="n01-prefix-once", property="N01",
  edits=[("format/jpa/kotlin.go", """			tableName = strings.TrimPrefix(tableName, prefix)
""", """			if prefix != "" && strings.HasPrefix(tableName, prefix) {
				tableName = strings.TrimPrefix(tableName, prefix)
				break
			}
""")],
  needs="two listed prefixes that both apply to one table name, one after the other",
  what="kotlin classes lose only the first matching prefix while the other generators remove both",
  demo=COMMON + '''
echo '{"tables":[{"name":"tb_adm_user","columns":[{"name":"id","type":"int64","pk":true}]}]}' > "$D/a.json"
"$OCT" generate kt --input "$D/a.json" --output "$D/o" --package com.x --removePrefix tb_,adm_
grep -rq 'class User(' "$D/o"
'''),
 dict(id="r02-truncate-first", property="R02",
  edits=[("format/octopus/table.go", """	data, err := s.ToJson()
	if err != nil {
		return err
	}
	return ioutil.WriteFile(filename, data, 0644)""", """	file, err := os.Create(filename)
	if err != nil {
		return err
	}
	defer file.Close()
	data, err := s.ToJson()
	if err != nil {
		return err
	}
	_, err = file.Write(data)
	return err"""), ("format/octopus/table.go", '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n')],
  needs="an import whose result is not a valid schema, with an existing output file",
  what="a failing import empties the output file that was there before",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"uuid","pk":true}]}]}' > "$D/a.ojson"
echo keep > "$D/o.json"
if "$OCT" import ojson --input "$D/a.ojson" --output "$D/o.json"; then exit 1; fi
[ "$(cat "$D/o.json")" = keep ]
'''),
]
