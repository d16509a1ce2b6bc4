# fifth round: the properties with the fewest planted bugs
COMMON = '''set -e
OCT="$PWD/oct"
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
'''
SEEDS = [
 dict(id="e-f01-trim", property="F01",
  edits=[("format/octopus/filter.go", "if table.Group == group {", "if strings.TrimSpace(table.Group) == strings.TrimSpace(group) {")],
  needs="a group whose name differs from another one only in a blank at its end",
  what="--groups selects the tables of a group whose name is not in the list",
  demo=COMMON + '''
echo '{"tables":[{"name":"aa","group":"g","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"bb","group":"g ","columns":[{"name":"id","type":"int64","pk":true}]}]}' > "$D/a.json"
"$OCT" export dbml --input "$D/a.json" --output "$D/o" --groups g
grep -q 'Table aa' "$D/o"; ! grep -q 'Table bb' "$D/o"
'''),
 dict(id="e-g01-gorm-import", property="G01",
  edits=[("format/gorm/generator.go", """		for _, modelName := range goStruct.EmbeddedModelNames {
			if modelName == "gorm.Model" {
				importSet.Add("github.com/jinzhu/gorm")
			}
		}
""", """		if names := goStruct.EmbeddedModelNames; len(names) > 0 && names[0] == "gorm.Model" {
			importSet.Add("github.com/jinzhu/gorm")
		}
""")],
  needs="a table that embeds gorm.Model and a model of --embed whose name sorts before it",
  what="the Go file embeds gorm.Model without importing gorm",
  demo=COMMON + '''
cat > "$D/a.json" <<'J'
{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true},{"name":"created_at","type":"datetime"},{"name":"updated_at","type":"datetime"},{"name":"deleted_at","type":"datetime"},{"name":"a","type":"int32"}]}]}
J
"$OCT" generate gorm --input "$D/a.json" --output "$D/o.go" --embed Base:a
grep -q '^[[:space:]]*gorm.Model' "$D/o.go"
grep -q 'jinzhu/gorm' "$D/o.go"
'''),
 dict(id="e-r01-fold-sort", property="R01",
  edits=[("util/set.go", "	sort.Strings(keys)\n", "	sort.Slice(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })\n")],
  needs="names in one set that differ only in letter case, such as two dropped tables, and several runs",
  what="such names come out in the order of the hash map",
  demo=COMMON + '''
python3 - "$D" <<'P'
import json, sys
t = lambda n: dict(name=n, columns=[dict(name="id", type="int64", pk=True)])
json.dump(dict(tables=[t("a")] + [t(n) for n in ("bbb", "bbB", "bBb", "Bbb", "BBB")]), open(sys.argv[1] + "/a.json", "w"))
json.dump(dict(tables=[t("a")]), open(sys.argv[1] + "/b.json", "w"))
P
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do "$OCT" diff flyway --from "$D/a.json" --to "$D/b.json" --output "$D/o$i"; cmp "$D/o1" "$D/o$i"; done
'''),
 dict(id="e-n01-group-case", property="N01",
  edits=[("format/common/prefix.go", "prefixMap[group] = prefixValue", "prefixMap[strings.ToLower(group)] = prefixValue"),
         ("format/common/prefix.go", "p.prefixMap[group]", "p.prefixMap[strings.ToLower(group)]")],
  needs="groups that differ only in letter case, one of them in the prefix map",
  what="a model gets the prefix of another group",
  demo=COMMON + '''
echo '{"tables":[{"name":"aa","group":"core","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"bb","group":"Core","columns":[{"name":"id","type":"int64","pk":true}]}]}' > "$D/a.json"
"$OCT" generate gorm --input "$D/a.json" --output "$D/o.go" --prefix core:C
grep -q 'type CAa struct' "$D/o.go"; grep -q 'type Bb struct' "$D/o.go"
'''),
 dict(id="e-e01-forward-link", property="E01",
  edits=[("format/dbml/exporter.go", """							table.Name, column.Name, rel, ref.Table, ref.Column),""", """							ref.Table, ref.Column, rel, table.Name, column.Name),""")],
  needs="a reference to a table that comes later in the order of groups and names",
  what="the link points the wrong way",
  demo=COMMON + '''
echo '{"tables":[{"name":"aa","columns":[{"name":"x","type":"int64","ref":{"table":"bb","column":"id","relationship":"n:1"}}]},{"name":"bb","columns":[{"name":"id","type":"int64","pk":true}]}]}' > "$D/a.json"
"$OCT" export dbml --input "$D/a.json" --output "$D/o"
grep -q 'aa.x > bb.id' "$D/o"
'''),
 dict(id="e-d02-rename-twice", property="D02",
  edits=[("format/diff/diff.go", """					removedColumnNameSet.Remove(removedColumnName)
					break
""", """					removedColumnNameSet.Remove(removedColumnName)
""")],
  needs="two removed columns that differ only in their names, and one added column like them",
  what="a column that the new schema does not have is not dropped",
  demo=COMMON + '''
C='{"name":"id","type":"int64","pk":true}'
echo '{"tables":[{"name":"t","columns":['$C',{"name":"a","type":"int32"},{"name":"b","type":"int32"}]}]}' > "$D/a.json"
echo '{"tables":[{"name":"t","columns":['$C',{"name":"c","type":"int32"}]}]}' > "$D/b.json"
"$OCT" diff flyway --from "$D/a.json" --to "$D/b.json" --output "$D/o"
grep -qi 'drop column' "$D/o"
'''),
 dict(id="e-k01-id-entity-composite", property="K01",
  edits=[("format/jpa/kotlin-gen.go", """idEntityInterfaceName != "" && pkFieldCount == 1 &&""", """idEntityInterfaceName != "" && pkFieldCount > 0 &&""")],
  needs="--idEntity and a composite primary key whose first column is id",
  what="an entity with a composite key implements the id interface",
  demo=COMMON + '''
echo '{"tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true,"notnull":true},{"name":"no","type":"int64","pk":true,"notnull":true}]}]}' > "$D/a.json"
"$OCT" generate kt --input "$D/a.json" --output "$D/o" --idEntity IdEntity
cat "$D"/o/*.kt | grep -q 'data class T('
! cat "$D"/o/*.kt | grep -q 'IdEntity'
'''),
]
