COMMON = '''set -e
OCT="$PWD/oct"
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
'''
SEEDS = [
 dict(id="b01-lq-rename-greedy", property="L02",
  edits=[("format/liquibase/diff.go", """				if addedColumn.IsRenamed(removedColumn, !useComments) {
					renamedColumnMap[addedColumn] = removedColumn
					removedColumnNameSet.Remove(removedColumnName)
					break
""", """				if addedColumn.IsRenamed(removedColumn, !useComments) {
					renamedColumnMap[addedColumn] = removedColumn
					removedColumnNameSet.Remove(removedColumnName)
""")],
  needs="two removed columns with the same definition and one added column with that definition",
  what="the diff pairs the added column with every matching removed column, so one removed column is neither renamed nor dropped",
  demo=COMMON + '''
cat > "$D/a.json" <<'J'
{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"a1","type":"varchar","size":10},{"name":"a2","type":"varchar","size":10}]}]}
J
cat > "$D/b.json" <<'J'
{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"b","type":"varchar","size":10}]}]}
J
"$OCT" diff liquibase --from "$D/a.json" --to "$D/b.json" --output "$D/o.yml" --author me
n=$(grep -c 'dropColumn' "$D/o.yml" || true)
m=$(grep -c 'renameColumn' "$D/o.yml" || true)
[ "$n" = 1 ] && [ "$m" = 1 ]
'''),
 dict(id="b02-mysql-exclude-case", property="M02",
  edits=[("format/mysql/importer.go", "tableName := createTableStmt.Table.Name.String()\n		if x.ExcludeSet.Contains(tableName) {",
          "tableName := createTableStmt.Table.Name.String()\n		if x.ExcludeSet.Contains(createTableStmt.Table.Name.L) {")],
  needs="an excluded table whose name contains an upper-case letter",
  what="tables with upper-case letters in their names are imported although they are excluded by name",
  demo=COMMON + '''
cat > "$D/a.sql" <<'J'
CREATE TABLE UserLog (id bigint NOT NULL);
CREATE TABLE other (id bigint NOT NULL);
J
"$OCT" import mysql --input "$D/a.sql" --output "$D/o.json" --excludes UserLog
if grep -q UserLog "$D/o.json"; then exit 1; fi
grep -q other "$D/o.json"
'''),
 dict(id="b03-xlsx-attr-equals", property="X01",
  edits=[("format/xlsx/importer.go", 'tokens := strings.SplitN(attr, "=", 2)', 'tokens := strings.Split(attr, "=")')],
  needs="a default value that contains an equals sign",
  what="an attribute whose value contains '=' is read back as the flag value true",
  demo=COMMON + '''
cat > "$D/a.json" <<'J'
{"version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"q","type":"varchar","size":10,"default":"a=b"}]}]}
J
"$OCT" export xlsx --input "$D/a.json" --output "$D/b.xlsx"
"$OCT" import xlsx --input "$D/b.xlsx" --output "$D/c.json"
grep -q '"a=b"' "$D/c.json"
'''),
 dict(id="b04-md-rename-drop", property="D01",
  edits=[("format/diff/diff.go", """					renamedTableMap[addedTable] = removedTable
					removedTableNames.Remove(removedTableName)
					break
""", """					renamedTableMap[addedTable] = removedTable
					removedTableNames.Remove(removedTableName)
""")],
  needs="two removed tables with the same columns and one added table with those columns",
  what="the report says nothing about the second removed table",
  demo=COMMON + '''
cat > "$D/a.json" <<'J'
{"version":"1","tables":[{"name":"a1","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"a2","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"z","columns":[{"name":"id","type":"int32"}]}]}
J
cat > "$D/b.json" <<'J'
{"version":"2","tables":[{"name":"b","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"z","columns":[{"name":"id","type":"int32"}]}]}
J
"$OCT" diff md --from "$D/a.json" --to "$D/b.json" --output "$D/o.md"
grep -q '# *`*a1' "$D/o.md" && grep -q '# *`*a2' "$D/o.md"
'''),
]
