# fourth round: bugs written from the property texts and the code, changing original lines only
COMMON = '''set -e
OCT="$PWD/oct"
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
'''
SEEDS = [
 dict(id="d-l03-rename-id", property="L03",
  edits=[("format/liquibase/diff.go", """			changeSet := newLqChangeSet(id.bumpMinor(), author)
			changeSet.Append("renameTable\"""", """			changeSet := newLqChangeSet(id.version(), author)
			changeSet.Append("renameTable\"""")],
  needs="a renamed table that has unique columns",
  what="the change set that renames a table has the id of the one that drops its unique constraint",
  demo=COMMON + '''
C='"columns":[{"name":"id","type":"int64","pk":true},{"name":"u","type":"varchar","size":5,"unique":true}]'
echo '{"tables":[{"name":"a",'$C'}]}' > "$D/a.json"
echo '{"tables":[{"name":"b",'$C'}]}' > "$D/b.json"
"$OCT" diff liquibase --from "$D/a.json" --to "$D/b.json" --output "$D/o.yml"
[ -z "$(grep -o 'id: .*' "$D/o.yml" | sort | uniq -d)" ]
'''),
 dict(id="d-p01-import-after-reference", property="P01",
  edits=[("format/protobuf/generator.go", """		if imp := field.Import; imp != "" {
			imports.Add(imp)
		}

		// reference
""", """
		// reference
"""), ("format/protobuf/generator.go", """				Repeated: repeated,
			})
		}
	}
""", """				Repeated: repeated,
			})
		}
		if imp := field.Import; imp != "" {
			imports.Add(imp)
		}
	}
""")],
  needs="the only datetime column of the selected tables references a table that is not generated",
  what="the file uses google.protobuf.Timestamp without importing it",
  demo=COMMON + '''
cat > "$D/a.json" <<'J'
{"tables":[{"name":"a","group":"g","columns":[{"name":"id","type":"int64","pk":true},{"name":"day","type":"datetime","ref":{"table":"b","column":"day","relationship":"n:1"}}]},
{"name":"b","group":"h","columns":[{"name":"day","type":"datetime","pk":true}]}]}
J
"$OCT" generate pb --input "$D/a.json" --output "$D/o.proto" --groups g
grep -q 'google.protobuf.Timestamp day' "$D/o.proto"
grep -q 'import "google/protobuf/timestamp.proto"' "$D/o.proto"
'''),
 dict(id="d-k01-scale-alone", property="K01",
  edits=[("format/jpa/kotlin-gen.go", """			colAttrs = append(colAttrs, fmt.Sprintf("precision = %d", column.Size))
		}
		if column.Scale > 0 {
			colAttrs = append(colAttrs, fmt.Sprintf("scale = %d", column.Scale))
		}
	}""", """			colAttrs = append(colAttrs, fmt.Sprintf("precision = %d", column.Size))
			if column.Scale > 0 {
				colAttrs = append(colAttrs, fmt.Sprintf("scale = %d", column.Scale))
			}
		}
	}""")],
  needs="a decimal column with a scale and no precision",
  what="the scale of a decimal column is missing from @Column",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"p","type":"decimal","scale":4}]}]}' > "$D/a.json"
"$OCT" generate kt --input "$D/a.json" --output "$D/o"
grep -rq 'scale = 4' "$D/o"
'''),
 dict(id="d-s01-keyword-case", property="S01",
  edits=[("format/sqlalchemy/sqlalchemy.go", "reservedWord := util.IsPythonReservedWord(fieldName)", "reservedWord := util.IsPythonReservedWord(column.Name)")],
  needs="a column whose name becomes a Python keyword only in lower snake case (Class, IF)",
  what="the attribute of a column named Class is the keyword class, which is no Python",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"Class","type":"int32"}]}]}' > "$D/a.json"
"$OCT" generate sqlalchemy --input "$D/a.json" --output "$D/o.py"
python3 -c 'import ast, sys; ast.parse(open(sys.argv[1]).read())' "$D/o.py"
'''),
 dict(id="d-d02-unique-of-renamed", property="D02",
  edits=[("format/diff/diff.go", """				ConstraintName: oldTable.Name + uniqueNameSuffix,
				Table:          oldTable,""", """				ConstraintName: oldTable.Name + uniqueNameSuffix,
				Table:          newTable,""")],
  needs="a renamed table that has unique columns",
  what="the unique key is dropped from a table that does not exist yet",
  demo=COMMON + '''
C='"columns":[{"name":"id","type":"int64","pk":true},{"name":"u","type":"varchar","size":5,"unique":true}]'
echo '{"tables":[{"name":"a",'$C'}]}' > "$D/a.json"
echo '{"tables":[{"name":"b",'$C'}]}' > "$D/b.json"
"$OCT" diff flyway --from "$D/a.json" --to "$D/b.json" --output "$D/o.sql"
grep -q 'ALTER TABLE a DROP INDEX' "$D/o.sql"
'''),
 dict(id="d-x02-last-index", property="X02",
  edits=[("format/octopus/table.go", """	for _, index := range t.Indices {
		if index.Name == name {
			return index
		}
	}
	return nil""", """	if n := len(t.Indices); n > 0 && t.Indices[n-1].Name == name {
		return t.Indices[n-1]
	}
	return nil""")],
  needs="a workbook whose rows of one index are not next to each other",
  what="an index whose rows are interleaved with those of another becomes several indexes of one name",
  demo=COMMON + '''
cat > "$D/mk.py" <<'P'
import sys, zipfile
rows = [["table/ref.","column","type","key","not null","attributes","description"],
        ["t","","table","","","",""],["","id","int64","P","O","",""],["","a","int32","","","",""],["","b","int32","","","",""],
        ["ix","a","","I","","",""],["iy","b","","I","","",""],["ix","b","","I","","",""]]
sheet = "".join('<row r="%d">%s</row>' % (i + 1, "".join('<c r="%s%d" t="inlineStr"><is><t>%s</t></is></c>' % ("ABCDEFG"[j], i + 1, v) for j, v in enumerate(r))) for i, r in enumerate(rows))
N = 'xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"'
R = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
z = zipfile.ZipFile(sys.argv[1], "w")
H = '<?xml version="1.0" encoding="UTF-8"?>'
z.writestr("[Content_Types].xml", H + '<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/><Override PartName="/xl/worksheets/sheet1.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/></Types>')
z.writestr("_rels/.rels", H + '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="%s/officeDocument" Target="xl/workbook.xml"/></Relationships>' % R)
z.writestr("xl/workbook.xml", H + '<workbook %s xmlns:r="%s"><sheets><sheet name="g" sheetId="1" r:id="rId1"/></sheets></workbook>' % (N, R))
z.writestr("xl/_rels/workbook.xml.rels", H + '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="%s/worksheet" Target="worksheets/sheet1.xml"/></Relationships>' % R)
z.writestr("xl/worksheets/sheet1.xml", H + '<worksheet %s><sheetData>%s</sheetData></worksheet>' % (N, sheet))
z.close()
P
python3 "$D/mk.py" "$D/a.xlsx"
"$OCT" import xlsx --input "$D/a.xlsx" --output "$D/o.json"
[ "$(grep -c '"name": "ix"' "$D/o.json")" = 1 ]
'''),
 dict(id="d-x02-attribute-blank", property="X02",
  edits=[("format/xlsx/importer.go", """	for _, attr := range strings.Split(value, ",") {
		attr = strings.TrimSpace(attr)
""", """	for _, attr := range strings.Split(value, ", ") {
		attr = strings.TrimSpace(attr)
""")],
  needs="two attributes separated by a comma without a blank",
  what="attributes after a comma without a blank are read as part of the value before",
  demo=COMMON + '''
cat > "$D/a.json" <<'J'
{"tables":[{"name":"t","group":"g","columns":[{"name":"id","type":"int64","pk":true,"default":"7,onUpdate=9"}]}]}
J
"$OCT" export xlsx --input "$D/a.json" --output "$D/a.xlsx"
"$OCT" import xlsx --input "$D/a.xlsx" --output "$D/o.json"
grep -q '"onupdate": "9"' "$D/o.json"
'''),
 dict(id="d-m02-autoinc-nullable", property="M02",
  edits=[("format/mysql/importer.go", """			column.AutoIncremental = true
			column.NotNull = true
""", """			column.AutoIncremental = true
""")],
  needs="an AUTO_INCREMENT column without NOT NULL that is not part of the primary key",
  what="an auto-increment column is imported as nullable",
  demo=COMMON + '''
echo "CREATE TABLE t (id bigint NOT NULL PRIMARY KEY, n int AUTO_INCREMENT UNIQUE);" > "$D/a.sql"
"$OCT" import mysql --input "$D/a.sql" --output "$D/o.json"
[ "$(grep -c notnull "$D/o.json")" = 2 ]
'''),
 dict(id="d-k01-annotation-colon", property="K01",
  edits=[("format/common/annotation.go", 'kv := strings.SplitN(annoToken, ":", 2)', 'kv := strings.Split(annoToken, ":")')],
  needs="a per-group annotation that contains a colon",
  what="a group's annotations are cut at the first colon",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","group":"g","columns":[{"name":"id","type":"int64","pk":true}]}]}' > "$D/a.json"
"$OCT" generate kt --input "$D/a.json" --output "$D/o" --annotation 'g:@Tag("a:b")'
grep -rq '@Tag("a:b")' "$D/o"
'''),
 dict(id="d-l02-unique-old-name", property="L02",
  edits=[("format/liquibase/diff.go", """			changeSet.Append("dropUniqueConstraint", newDropUniqueConstraint(oldTable, oldTable.Name+uniqueNameSuffix))""",
   """			changeSet.Append("dropUniqueConstraint", newDropUniqueConstraint(oldTable, newTable.Name+uniqueNameSuffix))""")],
  needs="a renamed table that has unique columns",
  what="the migration drops a unique constraint by the name the renamed table will have",
  demo=COMMON + '''
C='"columns":[{"name":"id","type":"int64","pk":true},{"name":"u","type":"varchar","size":5,"unique":true}]'
echo '{"tables":[{"name":"aa",'$C'}]}' > "$D/a.json"
echo '{"tables":[{"name":"bb",'$C'}]}' > "$D/b.json"
"$OCT" diff liquibase --from "$D/a.json" --to "$D/b.json" --output "$D/o.yml" -u _uq
grep -A3 dropUnique "$D/o.yml" | grep -q 'constraintName: aa_uq'
'''),
]
