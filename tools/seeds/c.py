# third round: bugs written from the property texts; each needs an unusual input or two sites that look fine alone
COMMON = '''set -e
OCT="$PWD/oct"
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
'''
SEEDS = [
 dict(id="c-l02-superset-equal", property="L02",
  edits=[("util/set.go", "	return cmp.Equal(s.valueMap, other.valueMap)", "	return len(s.valueMap) > 0 == (len(other.valueMap) > 0) && s.ContainsAll(other.Slice())"),
         ("util/set.go", '	"github.com/google/go-cmp/cmp"\n', "")],
  needs="two versions of a table where a column joins an existing unique constraint or composite primary key",
  what="a key that only grows is taken for unchanged, so the migration leaves the old key",
  demo=COMMON + '''
C='{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"a","type":"int32","unique":true}'
echo '{"tables":[{"name":"t","columns":['$C',{"name":"b","type":"int32"}]}]}' > "$D/a.json"
echo '{"tables":[{"name":"t","columns":['$C',{"name":"b","type":"int32","unique":true}]}]}' > "$D/b.json"
"$OCT" diff liquibase --from "$D/a.json" --to "$D/b.json" --output "$D/o.yaml" -u _uq
grep -q 'columnNames: a, b' "$D/o.yaml"
'''),
 dict(id="c-r01-no-truncate", property="R01",
  edits=[("util/io.go", """	if err := ioutil.WriteFile(filename, []byte(s), 0644); err != nil {
		return err
	}
""", """	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	defer f.Close()
	if _, err := f.WriteString(s); err != nil {
		return err
	}
""")],
  needs="an output file that exists already and is longer than the new output",
  what="flyway and markdown diffs keep the tail of a longer file that was there before",
  demo=COMMON + """
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64"}]}]}' > "$D/a.json"
"$OCT" diff md --from "$D/a.json" --to "$D/a.json" --output "$D/fresh.md"
head -c 4000 /dev/zero | tr '\\0' x > "$D/o.md"
"$OCT" diff md --from "$D/a.json" --to "$D/a.json" --output "$D/o.md"
cmp "$D/fresh.md" "$D/o.md"
"""),
 dict(id="c-x02-layout-leak", property="X02",
  edits=[("format/xlsx/importer.go", "		groupTables, err := readGroupSheet(groupName, sheet)", "		groupTables, err := c.readGroupSheet(groupName, sheet)"),
         ("format/xlsx/importer.go", "func readGroupSheet(", "func (c *Importer) readGroupSheet("),
         ("format/xlsx/importer.go", "	useNotNullColumn := false\n	for i, row", "	for i, row"),
         ("format/xlsx/importer.go", "				useNotNullColumn = true\n", "				c.useNotNullColumn = true\n"),
         ("format/xlsx/importer.go", "util.IfThenElseBool(useNotNullColumn,", "util.IfThenElseBool(c.useNotNullColumn,")],
  needs="a workbook in which one sheet uses the not-null layout and another the nullable layout",
  what="the column layout of one sheet is applied to the sheets read after it",
  files={"book.py": """import sys, zipfile
def sheet(head):
    rows = [["table/ref.", "column", "type", "key", head, "attributes", "description"], ["t" + head[:3], "", "table"], ["", "x", "bigint", "", "O"], ["", "y", "bigint"]]
    return '<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><sheetData>' + "".join(
        '<row r="%d">' % (i + 1) + "".join('<c r="%s%d" t="inlineStr"><is><t>%s</t></is></c>' % (chr(65 + k), i + 1, v) for k, v in enumerate(r)) + "</row>" for i, r in enumerate(rows)) + "</sheetData></worksheet>"
names = ["not null", "nullable"] * 4
N = range(len(names))
R = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
with zipfile.ZipFile(sys.argv[1], "w") as z:
    z.writestr("[Content_Types].xml", '<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/>' + "".join('<Override PartName="/xl/worksheets/sheet%d.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/>' % (k + 1) for k in N) + "</Types>")
    z.writestr("_rels/.rels", '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="%s/officeDocument" Target="xl/workbook.xml"/></Relationships>' % R)
    z.writestr("xl/workbook.xml", '<workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="%s"><sheets>' % R + "".join('<sheet name="g%d" sheetId="%d" r:id="rId%d"/>' % (k, k + 1, k + 1) for k in N) + "</sheets></workbook>")
    z.writestr("xl/_rels/workbook.xml.rels", '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">' + "".join('<Relationship Id="rId%d" Type="%s/worksheet" Target="worksheets/sheet%d.xml"/>' % (k + 1, R, k + 1) for k in N) + "</Relationships>")
    for k in N: z.writestr("xl/worksheets/sheet%d.xml" % (k + 1), sheet(names[k]))
""", "judge.py": """import json, sys
for t in json.load(open(sys.argv[1]))["tables"]:
    x, y = [bool(c.get("notnull")) for c in t["columns"]]
    want = (True, False) if t["name"] == "tnot" else (False, True)
    if (x, y) != want: sys.exit("%s: %s" % (t["name"], (x, y)))
"""},
  demo=COMMON + """
H=$(cd "$(dirname "$0")" && pwd)
python3 "$H/book.py" "$D/a.xlsx"
for n in 1 2 3 4 5 6; do
"$OCT" import xlsx --input "$D/a.xlsx" --output "$D/o.json"
python3 "$H/judge.py" "$D/o.json"
done
"""),
 dict(id="c-i02-key-not-null", property="I02",
  edits=[("format/staruml/importer.go", "NotNull:         !erdColumn.Nullable,", "NotNull:         !erdColumn.Nullable || erdColumn.ReferenceTo != nil && erdColumn.PrimaryKey,")],
  needs="a nullable foreign-key column that is marked as primary key",
  what="the drawn nullability of identifying foreign keys is overridden",
  demo=COMMON + """
cat > "$D/a.mdj" <<'J'
{"_type":"Project","_id":"P","name":"v1","ownedElements":[{"_type":"ERDDataModel","_id":"M","_parent":{"$ref":"P"},"ownedElements":[
{"_type":"ERDEntity","_id":"E","name":"t","_parent":{"$ref":"M"},"columns":[
{"_type":"ERDColumn","_id":"C1","_parent":{"$ref":"E"},"name":"id","type":"BIGINT","primaryKey":true},
{"_type":"ERDColumn","_id":"C2","_parent":{"$ref":"E"},"name":"fk","type":"BIGINT","primaryKey":true,"nullable":true,"referenceTo":{"$ref":"C1"}}]}]}]}
J
"$OCT" import staruml --input "$D/a.mdj" --output "$D/o.json"
python3 - "$D/o.json" <<'P'
import json, sys
c = json.load(open(sys.argv[1]))["tables"][0]["columns"]
sys.exit(0 if c[0].get("notnull") and not c[1].get("notnull") else 1)
P
"""),
 dict(id="c-n01-prefix-order", property="N01",
  edits=[("format/gorm/generator.go", """		tableName := table.Name
		for _, prefix := range c.option.RemovePrefixes {""", """		tableName := table.Name
		prefixes := append([]string{}, c.option.RemovePrefixes...)
		sort.Strings(prefixes)
		for _, prefix := range prefixes {"""), ("format/gorm/generator.go", '	"io"\n', '	"io"\n	"sort"\n')],
  needs="two prefixes to remove, given in non-alphabetical order, where the second is left over by the first",
  what="gorm takes prefixes off in alphabetical order and names the struct differently from the other generators",
  demo=COMMON + """
echo '{"tables":[{"name":"x_a_user","columns":[{"name":"id","type":"int64","pk":true}]}]}' > "$D/a.json"
"$OCT" generate gorm --input "$D/a.json" --output "$D/o.go" --removePrefix x_,a_
grep -q 'type User struct' "$D/o.go"
"""),
 dict(id="c-f01-fold", property="F01",
  edits=[("format/octopus/filter.go", "			if table.Group == group {", "			if strings.EqualFold(table.Group, group) {")],
  needs="two groups whose names differ only in letter case",
  what="group names are compared ignoring letter case",
  demo=COMMON + """
echo '{"tables":[{"name":"t","group":"Core","columns":[{"name":"id","type":"int64"}]},{"name":"u","group":"core","columns":[{"name":"id","type":"int64"}]}]}' > "$D/a.json"
"$OCT" export mysql --input "$D/a.json" --output "$D/o.sql" --groups core
grep -q 'TABLE.*u' "$D/o.sql"
! grep -q 'TABLE.*t ' "$D/o.sql"
"""),
 dict(id="c-q01-default-optional", property="Q01",
  edits=[("format/graphql/generator.go", "	if notNull {", "	if notNull && column.DefaultValue == \"\" {")],
  needs="a column that is not null and has a default value",
  what="a column that cannot be null is declared nullable because it has a default",
  demo=COMMON + """
echo '{"name":"x","version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"n","type":"int32","notnull":true,"default":"1"}]}]}' > "$D/a.json"
"$OCT" generate graphql --input "$D/a.json" --output "$D/o"
grep -q 'n: Int!' "$D/o/x-1.graphqls"
"""),
 dict(id="c-l01-unique-key-column", property="L01",
  edits=[("format/liquibase/generator.go", "	if uniqueCount >= 1 {", "	if uniqueCount >= 1 && !uniqueNameSet.Equals(primaryKeySet) {")],
  needs="a table whose unique columns are exactly its primary key columns",
  what="the declared unique constraint is not created when it covers the primary key",
  demo=COMMON + """
echo '{"tables":[{"name":"t","columns":[{"name":"a","type":"int64","pk":true,"unique":true},{"name":"b","type":"int64","pk":true,"unique":true}]}]}' > "$D/a.json"
"$OCT" generate liquibase --input "$D/a.json" --output "$D/o.yaml" -u _uq
grep -q 'constraintName: t_uq' "$D/o.yaml"
"""),
 dict(id="c-l03-old-author", property="L03",
  edits=[("format/liquibase/diff.go", 'util.IfThenElseString(option.Author != "", option.Author, option.DiffTo.Author)', 'util.IfThenElseString(option.Author != "", option.Author, util.IfThenElseString(option.DiffFrom.Author != "", option.DiffFrom.Author, option.DiffTo.Author))')],
  needs="two versions of a schema with different authors and no author option",
  what="changesets are attributed to the author of the old schema",
  demo=COMMON + """
echo '{"author":"old","tables":[{"name":"t","columns":[{"name":"id","type":"int64"}]}]}' > "$D/a.json"
echo '{"author":"new","tables":[{"name":"t","columns":[{"name":"id","type":"int64"},{"name":"b","type":"int32"}]}]}' > "$D/b.json"
"$OCT" diff liquibase --from "$D/a.json" --to "$D/b.json" --output "$D/o.yaml"
grep -q 'author: new' "$D/o.yaml"
! grep -q 'author: old' "$D/o.yaml"
"""),
 dict(id="c-g01-self-association", property="G01",
  edits=[("format/gorm/gorm.go", "			if refTable != nil && refColumn != nil {", "			if refTable != nil && refColumn != nil && refTable != table {")],
  needs="a column that refers to its own table",
  what="the association field of a self reference is missing",
  demo=COMMON + """
echo '{"tables":[{"name":"node","columns":[{"name":"id","type":"int64","pk":true},{"name":"up","type":"int64","ref":{"table":"node","column":"id"}}]}]}' > "$D/a.json"
"$OCT" generate gorm --input "$D/a.json" --output "$D/o.go"
grep -q 'foreignKey:Up' "$D/o.go"
"""),
 dict(id="c-p01-self-repeated", property="P01",
  edits=[("format/protobuf/generator.go", "			repeated := ref.Relationship == octopus.RefOneToMany", "			repeated := ref.Relationship == octopus.RefOneToMany && refTable != table")],
  needs="a 1:n reference to the own table",
  what="the relation field of a 1:n self reference is not repeated",
  demo=COMMON + """
echo '{"tables":[{"name":"node","columns":[{"name":"id","type":"int64","pk":true},{"name":"up","type":"int64","ref":{"table":"node","column":"id","relationship":"1:n"}}]}]}' > "$D/a.json"
"$OCT" generate pb --input "$D/a.json" --output "$D/o.proto"
grep -q 'repeated Node' "$D/o.proto"
"""),
 dict(id="c-d02-keep-key", property="D02",
  edits=[("format/diff/mysql.go", "	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {", "	if c.OldTable.PrimaryKeyNameSet().Size() > 0 && c.OldTable.PrimaryKeyNameSet().ContainsAny(pkColumnNames) {")],
  needs="a primary key that moves to other columns or goes away altogether",
  what="the old primary key is not dropped, so that adding the new one fails",
  demo=COMMON + """
echo '{"tables":[{"name":"t","columns":[{"name":"a","type":"int64","pk":true,"notnull":true},{"name":"b","type":"int64","notnull":true}]}]}' > "$D/a.json"
echo '{"tables":[{"name":"t","columns":[{"name":"a","type":"int64","notnull":true},{"name":"b","type":"int64","pk":true,"notnull":true}]}]}' > "$D/b.json"
"$OCT" diff flyway --from "$D/a.json" --to "$D/b.json" --output "$D/o.sql"
grep -q 'DROP PRIMARY KEY' "$D/o.sql"
"""),
 dict(id="c-d01-ninth-change", property="D01",
  edits=[("util/multimap.go", "	m.store[key] = append(m.store[key], value)", """	values := m.store[key]
	if len(values) > 0 && len(values) == cap(values) && len(values) >= 8 {
		values = append(make([]interface{}, 0, 2*cap(values)), values[:len(values)-1]...)
	}
	m.store[key] = append(values, value)""")],
  needs="a table with more than eight changes",
  what="the change before the ninth of a table is lost in the markdown diff",
  demo=COMMON + """
python3 - "$D" <<'P'
import json, sys
d = sys.argv[1]
for f, ty in (("a", "int32"), ("b", "int64")):
    json.dump(dict(tables=[dict(name="t", columns=[dict(name="c%d" % i, type=ty) for i in range(12)])]), open(d + "/" + f + ".json", "w"))
P
"$OCT" diff md --from "$D/a.json" --to "$D/b.json" --output "$D/o.md"
test $(grep -c 'change column type' "$D/o.md") = 12
"""),
 dict(id="c-m02-index-first-column", property="M02",
  edits=[("format/mysql/importer.go", "				indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})", """				if n := len(indices); n > 0 && cst.Name == "" {
					indices[n-1].Columns = append(indices[n-1].Columns, idxCols...)
				} else {
					indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})
				}""")],
  needs="an index without a name after another index",
  what="the columns of an unnamed index are appended to the index before it",
  demo=COMMON + """
echo "CREATE TABLE t (a int, b int, INDEX ia (a), INDEX (b));" > "$D/a.sql"
"$OCT" import mysql --input "$D/a.sql" --output "$D/o.json"
python3 - "$D/o.json" <<'P'
import json, sys
i = json.load(open(sys.argv[1]))["tables"][0]["indices"]
sys.exit(0 if [x["columns"] for x in i] == [["a"], ["b"]] else 1)
P
"""),
]
