------------------------------ MODULE OctCode ------------------------------
(***************************************************************************)
(* The code generators.  For every generator: what the models of a schema  *)
(* are (Expect...), and the differences between that and an observed       *)
(* artefact (Gen...Fails).  Order of imports, spelling of blanks, order of *)
(* keyword arguments and the like are not part of the abstract artefacts.  *)
(***************************************************************************)
EXTENDS OctNames, OctXlsx

Sel(s, groups) == Select(s, groups).tables
TableNamed(s, n) == \E i \in 1..Len(s.tables) : s.tables[i].name = n
Num(n) == ToString(n)
SizeOf(c) == "(" \o Num(c.size) \o ")"
SizeScaleOf(c) == "(" \o Num(c.size) \o "," \o Num(c.scale) \o ")"
ToSetOf(seq) == { seq[i] : i \in 1..Len(seq) }
Flat(seqs) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, seqs)
If(c, x) == IF c THEN <<x>> ELSE <<>>

\* DiffModels: models of a file, in the order of the tables
Pairwise(exp, obs, Cmp(_, _, _)) ==
    UNION { Cmp(exp[i], obs[i], exp[i].name) : i \in 1..(IF Len(exp) < Len(obs) THEN Len(exp) ELSE Len(obs)) }

(***************************************************************************)
(* GORM.                                                                   *)
(***************************************************************************)
GoType(c) ==
    CASE c.type \in StrTypes \cup TextTypes -> IF c.notnull THEN "string" ELSE "null.String"
      [] c.type = "boolean" -> IF c.notnull THEN "bool" ELSE "null.Bool"
      [] c.type \in IntTypes -> IF ~c.notnull THEN "null.Int" ELSE IF c.type = "int24" THEN "int32" ELSE c.type
      [] c.type = "decimal" -> IF c.notnull THEN "decimal.Decimal" ELSE "decimal.NullDecimal"
      [] c.type = "float" -> IF c.notnull THEN "float32" ELSE "null.Float"
      [] c.type = "double" -> IF c.notnull THEN "float64" ELSE "null.Float"
      [] c.type \in {"datetime", "date", "time"} -> IF c.notnull THEN "time.Time" ELSE "null.Time"
      [] c.type \in BlobTypes -> "[]byte"
      [] c.type = "bit" -> IF c.notnull THEN "byte" ELSE "*byte"
      [] c.type = "enum" -> "string"
      [] OTHER -> "interface{}"
GoImport(ty) ==
    CASE HasPrefix(ty, "null.") -> {"gopkg.in/guregu/null.v4"}
      [] HasPrefix(ty, "decimal.") -> {"github.com/shopspring/decimal"}
      [] ty = "time.Time" -> {"time"}
      [] OTHER -> {}
GoSqlType(c) ==
    CASE c.type \in {"bit"} \cup StrTypes /\ c.size > 0 -> <<"type:" \o c.type \o SizeOf(c)>>
      [] c.type \in RealTypes /\ c.size > 0 /\ c.scale > 0 -> <<"type:" \o c.type \o SizeScaleOf(c)>>
      [] OTHER -> <<>>
GoTags(t, c, o) ==
    LET idx(n) == SelectSeq([k \in 1..Len(t.indices[n].columns) |-> k], LAMBDA k : t.indices[n].columns[k] = c.name)
        tag(n) == IF idx(n) = <<>> THEN <<>>
                  ELSE IF Len(t.indices[n].columns) = 1 THEN <<"index:" \o t.indices[n].name>>
                  ELSE <<"index:" \o t.indices[n].name \o ",priority:" \o Num(idx(n)[1])>>
    IN  If(GoFieldMapped(c.name), "column:" \o c.name)
        \o GoSqlType(c)
        \o If(c.pk, "primary_key")
        \o If(c.unique, IF Len(UqCols(t)) > 1 THEN "unique_index:" \o t.name \o o.suffix ELSE "unique")
        \o Flat([n \in 1..Len(t.indices) |-> tag(n)])
        \o If(c.autoinc, "auto_increment")
        \o If(c.notnull /\ ~c.autoinc, "not null")

GoColumn(t, c, o) == [name |-> GoField(c.name), type |-> GoType(c), tags |-> GoTags(t, c, o)]

\* one association per reference to a column that exists
GoLinks(s, t, o) ==
    LET ok(c) == c.ref # <<>> /\ TableNamed(s, c.ref[1].table) /\ HasName(ByName(s.tables, c.ref[1].table).columns, c.ref[1].column)
        cs == SelectSeq(t.columns, ok)
        link(c) == LET m == ModelName(ByName(s.tables, c.ref[1].table), o.prefix, o.removePrefix) IN
                   [name |-> m,
                    type |-> (IF o.pointer THEN "*" ELSE "") \o (IF c.ref[1].relationship = "1:n" THEN "[]" ELSE "") \o m,
                    tags |-> <<"foreignKey:" \o GoField(c.name), "references:" \o GoField(c.ref[1].column)>>]
    IN  [i \in 1..Len(cs) |-> link(cs[i])]

\* embeddable models: gorm.Model, unless redefined, and the one given
EmbedName(e) == SubSeq(e, 1, ColonAt(e) - 1)
EmbedCols(e) == SelectSeq(SplitStr(SubSeq(e, ColonAt(e) + 1, Len(e)), ","), LAMBDA x : x # "")
Embeddable(o) ==
    LET std == ("gorm.Model" :> <<"id", "created_at", "updated_at", "deleted_at">>)
        all == IF o.embed = "" THEN std ELSE (EmbedName(o.embed) :> EmbedCols(o.embed)) @@ std
    IN  [n \in { m \in DOMAIN all : all[m] # <<>> } |-> ToSetOf(all[n])]
\* which of them may stand in for columns of t: complete, disjoint, and no further one would fit
Fits(t, cols) == cols \subseteq NameSet(t.columns)
GoodEmbedding(t, o, es) ==
    LET em == Embeddable(o) IN
    /\ es \subseteq DOMAIN em
    /\ \A n \in es : Fits(t, em[n])
    /\ \A n, m \in es : n # m => em[n] \cap em[m] = {}
    /\ \A n \in DOMAIN em \ es : ~Fits(t, em[n]) \/ \E m \in es : em[n] \cap em[m] # {}

DiffGoField(e, x, where) ==
    Same("go-type", where, e.type, x.type) \cup SameBag("go-tag", where, e.tags, x.tags)
DiffGoStruct(s, t, o, x) ==
    LET es == ToSetOf(x.embedded)
        em == Embeddable(o)
        gone == UNION { em[n] : n \in es \cap DOMAIN em }
        cols == SelectSeq(t.columns, LAMBDA c : c.name \notin gone)
        exp == [i \in 1..Len(cols) |-> GoColumn(t, cols[i], o)] \o GoLinks(s, t, o)
    IN  Same("name-model", t.name, ModelName(t, o.prefix, o.removePrefix), x.name)
        \cup Same("go-table", t.name, t.name, x.table)
        \cup Holds(Distinct(x.embedded) /\ GoodEmbedding(t, o, es), "go-embed", t.name \o ToString(x.embedded))
        \cup Holds(Names(exp) = Names(x.fields), "name-fields", t.name \o ": " \o ToString(Names(exp)) \o " " \o ToString(Names(x.fields)))
        \cup (IF Len(exp) # Len(x.fields) THEN {<<"go-fields", t.name, ToString(Names(exp)), ToString(Names(x.fields))>>}
              ELSE UNION { DiffGoField(exp[i], x.fields[i], t.name \o "." \o exp[i].name) : i \in 1..Len(exp) })
        \cup Holds(Distinct(Names(x.fields)), "go-field-twice", t.name)

GenGormFails(s, o, v) ==
    LET ts == Sel(s, o.groups) IN
    Same("go-package", "", IF o.package = "" THEN "main" ELSE o.package, v.package)
    \cup Same("models", "", Len(ts), Len(v.structs))
    \cup (IF Len(ts) = Len(v.structs) THEN UNION { DiffGoStruct(s, ts[i], o, v.structs[i]) : i \in 1..Len(ts) } ELSE {})
    \cup Holds(Distinct(v.imports), "go-import-twice", ToString(v.imports))
    \cup Same("go-import-unused", "", <<>>, v.unused)
    \cup Same("go-import-missing", "", <<>>, v.missing)

(***************************************************************************)
(* SQLAlchemy.                                                             *)
(***************************************************************************)
PyTypeName(c) ==
    CASE c.type \in StrTypes \cup TextTypes -> "String"
      [] c.type = "boolean" \/ (c.type = "bit" /\ c.size = 1) -> "Boolean"
      [] c.type = "int64" -> "BigInteger"
      [] c.type \in IntTypes -> "Integer"
      [] c.type = "decimal" -> "Numeric"
      [] c.type \in {"float", "double"} -> "Float"
      [] c.type = "datetime" -> "DateTime"
      [] c.type = "date" -> "Date"
      [] c.type = "time" -> "Time"
      [] c.type \in BlobTypes -> "LargeBinary"
      [] OTHER -> ""
Audit(c) == c.type = "datetime" /\ c.name \in {"created_at", "updated_at"}
PyType(c, o) ==
    LET n == PyTypeName(c) IN
    IF n = "" THEN <<>>
    ELSE <<[name |-> IF c.type = "datetime" /\ o.useUTC /\ ~Audit(c) THEN "TZDateTime" ELSE n,
            args |-> CASE c.type \in StrTypes /\ c.size > 0 -> <<Num(c.size)>>
                       [] c.type \in RealTypes -> If(c.size > 0, "precision=" \o Num(c.size))
                                                  \o If(c.scale > 0 /\ c.type = "decimal", "scale=" \o Num(c.scale))
                       [] OTHER -> <<>>]>>
PyNow(o) == IF o.useUTC THEN "datetime.utcnow" ELSE "datetime.now"
KV(k, v) == [key |-> k, val |-> v]
PyKw(c, o) ==
    If(Audit(c), KV("default", PyNow(o)))
    \o If(Audit(c) /\ c.name = "updated_at", KV("onupdate", PyNow(o)))
    \o If(c.pk, KV("primary_key", "True"))
    \o If(c.unique, KV("unique", "True"))
    \o If(c.autoinc, KV("autoincrement", "True"))
    \o If(c.notnull /\ ~c.autoinc, KV("nullable", "False"))
DiffPyField(c, o, x, where) ==
    (IF x.column # "" THEN Same("py-column", where, c.name, x.column)
     ELSE Holds(~PyFieldMapped(c.name), "py-column", where))
    \cup Same("py-type", where, PyType(c, o), x.type)
    \cup SameBag("py-attribute", where, PyKw(c, o), x.kw)
DiffPyClass(t, o, x) ==
    Same("name-model", t.name, ModelName(t, o.prefix, o.removePrefix), x.name)
    \cup Same("py-base", t.name, <<"Base">>, x.bases)
    \cup Same("py-table", t.name, t.name, x.table)
    \cup Same("py-unique", t.name,
              IF Len(UqCols(t)) > 1 THEN <<[columns |-> Names(UqCols(t)), name |-> t.name \o o.suffix]>> ELSE <<>>, x.uniques)
    \cup LET fs == [i \in 1..Len(t.columns) |-> PyField(t.columns[i].name)] IN
         IF fs # Names(x.fields) THEN {<<"name-fields", t.name, ToString(fs), ToString(Names(x.fields))>>}
         ELSE UNION { DiffPyField(t.columns[i], o, x.fields[i], t.name \o "." \o fs[i]) : i \in 1..Len(fs) }
\* where the names a file uses have to come from
PyNeeds(ts, o) ==
    UNION { UNION { LET c == ts[i].columns[j] IN
                    {"sqlalchemy.Column"}
                    \cup (IF PyTypeName(c) = "" THEN {} ELSE {"sqlalchemy." \o PyTypeName(c)})
                    \cup (IF Audit(c) THEN {"datetime.datetime"} ELSE {})
                    \cup (IF c.type = "datetime" /\ o.useUTC /\ ~Audit(c) THEN {"sqlalchemy.TypeDecorator", "datetime.timezone"} ELSE {})
                  : j \in 1..Len(ts[i].columns) }
            \cup (IF Len(UqCols(ts[i])) > 1 THEN {"sqlalchemy.UniqueConstraint"} ELSE {}) : i \in 1..Len(ts) }
PyTz(ts, o) == o.useUTC /\ \E i \in 1..Len(ts) : \E j \in 1..Len(ts[i].columns) :
                   ts[i].columns[j].type = "datetime" /\ ~Audit(ts[i].columns[j])
DiffPyFile(ts, o, x) ==
    Same("models", x.name, Len(ts), Len(x.classes))
    \cup (IF Len(ts) = Len(x.classes) THEN UNION { DiffPyClass(ts[i], o, x.classes[i]) : i \in 1..Len(ts) } ELSE {})
    \cup Same("py-undefined", x.name, <<>>, x.missing)
    \cup Same("py-import", x.name, {}, PyNeeds(ts, o) \ ToSetOf(x.imports))
    \cup (IF PyTz(ts, o) THEN Holds(x.tz, "py-tzdatetime", x.name) ELSE {})
GenSqlAlchemyFails(s, o, v) ==
    LET ts == Sel(s, o.groups) IN
    IF v.single THEN DiffPyFile(ts, o, v.files[1])
    ELSE LET want == { ts[i].name \o ".py" : i \in 1..Len(ts) } IN
         Same("py-files", "", want, NameSet(v.files))
         \cup UNION { IF HasName(v.files, ts[i].name \o ".py")
                      THEN DiffPyFile(<<ts[i]>>, o, ByName(v.files, ts[i].name \o ".py")) ELSE {} : i \in 1..Len(ts) }

(***************************************************************************)
(* Protobuf.                                                               *)
(***************************************************************************)
PbTypes == StrTypes \cup TextTypes \cup IntTypes \cup RealTypes \cup {"boolean", "datetime"}
PbType(c) ==
    CASE c.type \in StrTypes \cup TextTypes -> "string"
      [] c.type = "boolean" -> "bool"
      [] c.type = "int64" -> "int64"
      [] c.type \in IntTypes -> "int32"
      [] c.type \in {"decimal", "double"} -> "double"
      [] c.type = "float" -> "float"
      [] c.type = "datetime" -> "google.protobuf.Timestamp"
      [] OTHER -> c.type
\* relations are numbered from the requested tag, moved behind the columns where they would overlap them
TagStart(o) == IF o.tagStart = "" THEN -1
               ELSE LET digits(x) == FoldLeft(LAMBDA acc, i : acc * 10 + (Ord(Ch(x, i)) - Ord("0")), 0, Idx(x))
                    IN  IF HasPrefix(o.tagStart, "-") THEN -digits(DropPrefix(o.tagStart, "-")) ELSE digits(o.tagStart)
RelTags(o, nCols, nRels) ==
    LET st == TagStart(o) IN
    IF o.tagDecr
    THEN LET first == IF st - nRels + 1 <= nCols THEN nCols + nRels ELSE st IN [i \in 1..nRels |-> first - i + 1]
    ELSE LET first == IF st <= nCols THEN nCols + 1 ELSE st IN [i \in 1..nRels |-> first + i - 1]
PbFields(s, t, o) ==
    LET sel == Sel(s, o.groups)
        cs == t.columns
        rs == SelectSeq(cs, LAMBDA c : c.ref # <<>> /\ HasName(sel, c.ref[1].table))
        tags == RelTags(o, Len(cs), Len(rs))
        msg(c) == TableModelName(ByName(sel, c.ref[1].table), o.prefix, o.removePrefix)
    IN  [i \in 1..Len(cs) |-> [name |-> PbField(cs[i].name), type |-> PbType(cs[i]), tag |-> i, repeated |-> FALSE]]
        \o [i \in 1..Len(rs) |-> [name |-> LowerCamel(msg(rs[i])), type |-> msg(rs[i]), tag |-> tags[i],
                                  repeated |-> rs[i].ref[1].relationship = "1:n"]]
PbScalars == {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
              "sfixed32", "sfixed64", "bool", "string", "bytes"}
MaxTag == 536870911
DiffPbMessage(s, t, o, m, v) ==
    LET exp == PbFields(s, t, o)
        tags == [i \in 1..Len(m.fields) |-> m.fields[i].tag]
    IN  Same("name-model", t.name, TableModelName(t, o.prefix, o.removePrefix), m.name)
        \cup Holds(Distinct(tags), "pb-tag-twice", t.name \o ToString(tags))
        \cup Holds(\A i \in 1..Len(tags) : tags[i] >= 1 /\ tags[i] <= MaxTag, "pb-tag-range", t.name \o ToString(tags))
        \cup Holds(Distinct(Names(m.fields)), "pb-field-twice", t.name)
        \cup UNION { Holds(m.fields[i].type \in PbScalars \cup NameSet(v.messages)
                           \/ (m.fields[i].type = "google.protobuf.Timestamp" /\ "google/protobuf/timestamp.proto" \in ToSetOf(v.imports)),
                           "pb-unknown-type", t.name \o "." \o m.fields[i].type) : i \in 1..Len(m.fields) }
        \cup (IF Names(exp) # Names(m.fields) THEN {<<"name-fields", t.name, ToString(Names(exp)), ToString(Names(m.fields))>>}
              ELSE UNION { Same("pb-field", t.name \o "." \o exp[i].name, exp[i], m.fields[i]) : i \in 1..Len(exp) })
GenPbFails(s, o, v) ==
    LET ts == Sel(s, o.groups)
        stamps == \E i \in 1..Len(ts) : \E j \in 1..Len(ts[i].columns) : ts[i].columns[j].type = "datetime"
    IN  Same("pb-syntax", "", "proto3", v.syntax)
        \cup Same("pb-package", "", o.package, v.package)
        \cup Same("pb-option", "", IF o.goPackage = "" THEN <<>> ELSE <<[name |-> "go_package", val |-> o.goPackage]>>, v.options)
        \cup Same("pb-import", "", IF stamps THEN <<"google/protobuf/timestamp.proto">> ELSE <<>>, v.imports)
        \cup Same("models", "", Len(ts), Len(v.messages))
        \cup Holds(Distinct(Names(v.messages)), "pb-message-twice", ToString(Names(v.messages)))
        \cup (IF Len(ts) = Len(v.messages) THEN UNION { DiffPbMessage(s, ts[i], o, v.messages[i], v) : i \in 1..Len(ts) } ELSE {})

(***************************************************************************)
(* GraphQL.                                                                *)
(***************************************************************************)
GqlType(c) ==
    CASE c.type = "boolean" -> "Boolean"
      [] c.type \in IntTypes -> "Int"
      [] c.type \in RealTypes -> "Float"
      [] OTHER -> "String"
GqlFieldType(t, c) ==
    IF c.pk /\ Len(PkCols(t)) = 1 THEN "ID!" ELSE GqlType(c) \o (IF c.notnull THEN "!" ELSE "")
Vowels == {"a", "e", "i", "o", "u"}
Plural(n) ==
    LET k == Len(n)
        l == Lower(n)
        last == Ch(l, k)
        prev == IF k > 1 THEN Ch(l, k - 1) ELSE ""
    IN  IF HasSuffix(l, "child") THEN n \o "ren"
        ELSE IF HasSuffix(l, "data") THEN n
        ELSE IF last = "y" /\ prev \notin Vowels THEN SubSeq(n, 1, k - 1) \o "ies"
        ELSE IF last \in {"s", "x", "z"} \/ HasSuffix(l, "ch") \/ HasSuffix(l, "sh") THEN n \o "es"
        ELSE n \o (IF IsCap(Ch(n, k)) THEN "S" ELSE "s")
DiffGqlType(t, x) ==
    LET fs == [i \in 1..Len(t.columns) |-> GqlField(t.columns[i].name)] IN
    Same("name-model", t.name, ModelName(t, "", ""), x.name)
    \cup (IF fs # Names(x.fields) THEN {<<"name-fields", t.name, ToString(fs), ToString(Names(x.fields))>>}
          ELSE UNION { Same("gql-type", t.name \o "." \o fs[i], GqlFieldType(t, t.columns[i]), x.fields[i].type) : i \in 1..Len(fs) })
GenGraphqlFails(s, o, v) ==
    LET ts == s.tables
        q == [i \in 1..Len(ts) |-> LET m == ModelName(ts[i], "", "") IN [name |-> Plural(LowerCamel(m)), type |-> "[" \o m \o "]"]]
    IN  Same("gql-file", "", s.name \o "-" \o s.version \o ".graphqls", v.file)
        \cup Same("gql-root", "", "Query", v.root)
        \cup Same("gql-query", "", q, v.query)
        \cup Same("models", "", Len(ts), Len(v.types))
        \cup Holds(Distinct(Names(v.types)), "gql-type-twice", ToString(Names(v.types)))
        \cup Holds(Distinct(Names(v.query)), "gql-query-twice", ToString(Names(v.query)))
        \cup (IF Len(ts) = Len(v.types) THEN UNION { DiffGqlType(ts[i], v.types[i]) : i \in 1..Len(ts) } ELSE {})

(***************************************************************************)
(* Kotlin / JPA.                                                           *)
(***************************************************************************)
KtType(c) ==
    CASE c.type \in StrTypes \cup TextTypes -> "String"
      [] c.type = "boolean" -> "Boolean"
      [] c.type = "int64" -> "Long"
      [] c.type \in IntTypes -> "Int"
      [] c.type = "decimal" -> "BigDecimal"
      [] c.type = "float" -> "Float"
      [] c.type = "double" -> "Double"
      [] c.type = "datetime" -> "Timestamp"
      [] c.type = "date" -> "LocalDate"
      [] c.type = "time" -> "LocalTime"
      [] c.type \in BlobTypes -> "Blob"
      [] OTHER -> "Any"
KtTypeImport(ty) ==
    CASE ty = "BigDecimal" -> {"java.math.BigDecimal"}
      [] ty \in {"Timestamp", "Blob"} -> {"java.sql." \o ty}
      [] ty \in {"LocalDate", "LocalTime"} -> {"java.time." \o ty}
      [] OTHER -> {}
KtDefault(c) ==
    IF ~c.notnull THEN ""
    ELSE LET ty == KtType(c) IN
    CASE ty = "String" -> "\"\""
      [] ty = "Boolean" -> "false"
      [] ty = "Int" -> "0"
      [] ty = "Long" -> "0L"
      [] ty = "BigDecimal" -> "BigDecimal.ZERO"
      [] ty = "Float" -> "0.0F"
      [] ty = "Double" -> "0.0"
      [] ty = "Timestamp" -> "Timestamp(System.currentTimeMillis())"
      [] ty \in {"LocalDate", "LocalTime"} -> ty \o ".now()"
      [] OTHER -> ""
Quoted(x) == "\"" \o x \o "\""
CreatedAt(c) == c.type = "datetime" /\ KtField(c.name) = "createdAt"
UpdatedAt(c) == c.type = "datetime" /\ KtField(c.name) = "updatedAt"
KtColumnArgs(c) ==
    If(KtFieldMapped(c.name), KV("name", Quoted(c.name)))
    \o If(c.notnull, KV("nullable", "false"))
    \o If(c.type \in StrTypes \cup TextTypes /\ c.size > 0, KV("length", Num(c.size)))
    \o If(c.type \in RealTypes /\ c.size > 0, KV("precision", Num(c.size)))
    \o If(c.type \in RealTypes /\ c.scale > 0, KV("scale", Num(c.scale)))
    \o If(CreatedAt(c), KV("updatable", "false"))
An(n, args) == [name |-> n, args |-> args]
KtFieldAnnotations(s, c, o) ==
    If(c.pk, An("Id", {}))
    \o If(c.autoinc, An("GeneratedValue", {KV("strategy", "GenerationType.AUTO")}))
    \o If(c.type \in TextTypes, An("Lob", {}))
    \o (IF o.relation = "VRelation" /\ c.ref # <<>>
        THEN <<An("VRelation", {KV("cls", Quoted(ModelName(ByName(s.tables, c.ref[1].table), o.prefix, o.removePrefix))),
                                KV("field", Quoted(KtField(c.ref[1].column)))})>> ELSE <<>>)
    \o If(CreatedAt(c), An("CreationTimestamp", {}))
    \o If(UpdatedAt(c), An("UpdateTimestamp", {}))
    \o (IF KtColumnArgs(c) = <<>> THEN <<>> ELSE <<An("Column", ToSetOf(KtColumnArgs(c)))>>)
ArgSets(as) == [i \in 1..Len(as) |-> [name |-> as[i].name, args |-> ToSetOf(as[i].args)]]
KtIdField(t, o) == IF o.idEntity # "" /\ Len(PkCols(t)) = 1 /\ KtField(PkCols(t)[1].name) = "id" THEN <<PkCols(t)[1]>> ELSE <<>>
DiffKtField(s, t, o, c, x, where, plain) ==
    Same("kt-type", where, KtType(c), x.type)
    \cup Same("kt-nullable", where, ~c.notnull, x.nullable)
    \cup Same("kt-default", where, KtDefault(c), x.default)
    \cup (IF plain THEN {}
          ELSE SameBag("kt-annotation", where, KtFieldAnnotations(s, c, o), ArgSets(x.annotations))
               \cup Same("kt-override", where, KtIdField(t, o) = <<c>>, x.override))
DiffKtFields(s, t, o, cs, xs, plain) ==
    LET fs == [i \in 1..Len(cs) |-> KtField(cs[i].name)] IN
    IF fs # Names(xs) THEN {<<"name-fields", t.name, ToString(fs), ToString(Names(xs))>>}
    ELSE UNION { DiffKtField(s, t, o, cs[i], xs[i], t.name \o "." \o fs[i], plain) : i \in 1..Len(cs) }
\* @Table(name, uniqueConstraints = [UniqueConstraint(name, columnNames = [...])]); a unique column may be
\* named by its column or by its property
KtUnique(t, suffix, mapped) ==
    LET us == UqCols(t)
        names == [i \in 1..Len(us) |-> Quoted(IF mapped THEN us[i].name ELSE KtField(us[i].name))]
    IN  "[UniqueConstraint(name=" \o Quoted(t.name \o suffix) \o ",columnNames=[" \o JoinStr(names, ",") \o "])]"
KtTableArgs(t, suffix, mapped) ==
    {KV("name", Quoted(t.name))} \cup (IF UqCols(t) = <<>> THEN {} ELSE {KV("uniqueConstraints", KtUnique(t, suffix, mapped))})
KtCustom(t, o) ==
    IF o.annotation = "" THEN <<>>
    ELSE LET v == IF HasText(o.annotation, ":") THEN GroupValue(t.group, o.annotation) ELSE o.annotation IN
         SelectSeq(SplitStr(JoinStr(SplitStr(v, " "), ""), ";"), LAMBDA a : a # "")
DiffKtClass(s, t, o, x, pkg) ==
    LET as == ArgSets(x.annotations)
        plain == SelectSeq(x.annotations, LAMBDA a : a.name \notin {"Entity", "Table", "IdClass"})
        ofName(n) == SelectSeq(as, LAMBDA a : a.name = n)
        model == ModelName(t, o.prefix, o.removePrefix)
        composite == Len(PkCols(t)) > 1
    IN  Same("name-model", t.name, model, x.name)
        \cup Same("kt-entity", t.name, <<An("Entity", {})>>, ofName("Entity"))
        \cup Holds(ofName("Table") \in {<<An("Table", KtTableArgs(t, o.suffix, m))>> : m \in BOOLEAN}, "kt-table", t.name \o ToString(ofName("Table")))
        \cup Same("kt-idclass", t.name, If(composite, An("IdClass", {KV("", model \o "PK::class")})), ofName("IdClass"))
        \cup Same("kt-custom-annotation", t.name, KtCustom(t, o), [i \in 1..Len(plain) |-> plain[i].text])
        \cup Same("kt-super", t.name,
                  IF KtIdField(t, o) = <<>> THEN <<>>
                  ELSE LET c == KtIdField(t, o)[1] IN <<o.idEntity \o "<" \o KtType(c) \o (IF c.notnull THEN "" ELSE "?") \o ">">>, x.supers)
        \cup DiffKtFields(s, t, o, t.columns, x.fields, FALSE)
DiffKtPk(s, t, o, x) ==
    Same("kt-pk-class", t.name, ModelName(t, o.prefix, o.removePrefix) \o "PK", x.name)
    \cup Same("kt-pk-super", t.name, <<"Serializable">>, x.supers)
    \cup DiffKtFields(s, t, o, PkCols(t), x.fields, TRUE)
KtNeeds(t) ==
    {"javax.persistence.*"}
    \cup UNION { KtTypeImport(KtType(t.columns[i])) : i \in 1..Len(t.columns) }
    \cup (IF Len(PkCols(t)) > 1 THEN {"java.io.Serializable"} ELSE {})
    \cup (IF \E i \in 1..Len(t.columns) : CreatedAt(t.columns[i]) THEN {"org.hibernate.annotations.CreationTimestamp"} ELSE {})
    \cup (IF \E i \in 1..Len(t.columns) : UpdatedAt(t.columns[i]) THEN {"org.hibernate.annotations.UpdateTimestamp"} ELSE {})
PkgDir(p) == IF p = "" THEN "" ELSE JoinStr(SplitStr(p, "."), "/") \o "/"
EntityPath(t, o) == PkgDir(o.package) \o ModelName(t, o.prefix, o.removePrefix) \o ".kt"
RepoPath(t, o) == PkgDir(o.reposPackage) \o ModelName(t, o.prefix, o.removePrefix) \o "Repository.kt"
FileAt(v, p) == v.files[CHOOSE i \in 1..Len(v.files) : v.files[i].path = p]
DiffKtEntity(s, t, o, f) ==
    LET n == IF Len(PkCols(t)) > 1 THEN 2 ELSE 1 IN
    Same("kt-package", t.name, o.package, f.package)
    \cup Same("kt-import", t.name, KtNeeds(t), ToSetOf(f.imports))
    \cup Same("kt-repository", t.name, <<>>, f.repos)
    \cup (IF Len(f.classes) # n THEN {<<"kt-classes", t.name, ToString(n), ToString(Names(f.classes))>>}
          ELSE DiffKtClass(s, t, o, f.classes[1], o.package)
               \cup (IF n = 2 THEN DiffKtPk(s, t, o, f.classes[2]) ELSE {}))
\* the id type of a repository, with or without a mark for "nullable"
KtIdTypes(t, m) == IF Len(PkCols(t)) > 1 THEN {m \o "PK"} ELSE LET c == PkCols(t)[1] IN {KtType(c), KtType(c) \o (IF c.notnull THEN "" ELSE "?")}
DiffKtRepo(t, o, f) ==
    LET m == ModelName(t, o.prefix, o.removePrefix) IN
    Same("kt-package", t.name, o.reposPackage, f.package)
    \cup Same("kt-import", t.name,
              {"org.springframework.data.jpa.repository.JpaRepository", "org.springframework.stereotype.Repository"}
              \cup (IF o.package = "" THEN {} ELSE {o.package \o ".*"}), ToSetOf(f.imports))
    \cup Same("kt-classes", t.name, <<>>, f.classes)
    \cup Holds(Len(f.repos) = 1 /\ f.repos[1].name = m \o "Repository"
               /\ ArgSets(f.repos[1].annotations) = <<An("Repository", {})>>
               /\ f.repos[1].sup \in { "JpaRepository<" \o m \o "," \o i \o ">" : i \in KtIdTypes(t, m) }, "kt-repository", t.name \o ToString(f.repos))
GenKtFails(s, o, v) ==
    LET ts == Sel(s, o.groups)
        withRepo == IF o.reposPackage = "" THEN <<>> ELSE SelectSeq(ts, LAMBDA t : PkCols(t) # <<>>)
        want == { EntityPath(ts[i], o) : i \in 1..Len(ts) } \cup { RepoPath(withRepo[i], o) : i \in 1..Len(withRepo) }
        got == { v.files[i].path : i \in 1..Len(v.files) }
    IN  Same("name-files", "", want, got)
        \cup UNION { IF EntityPath(ts[i], o) \in got THEN DiffKtEntity(s, ts[i], o, FileAt(v, EntityPath(ts[i], o))) ELSE {} : i \in 1..Len(ts) }
        \cup UNION { IF RepoPath(withRepo[i], o) \in got THEN DiffKtRepo(withRepo[i], o, FileAt(v, RepoPath(withRepo[i], o))) ELSE {}
                     : i \in 1..Len(withRepo) }

(***************************************************************************)
(* DBML, QuickDBD, PlantUML.                                               *)
(***************************************************************************)
Arity(c, manyOne, oneMany, oneOne) ==
    CASE c.ref[1].relationship = "1:n" -> oneMany
      [] c.ref[1].relationship = "1:1" -> oneOne
      [] OTHER -> manyOne
RefCols(t) == SelectSeq(t.columns, LAMBDA c : c.ref # <<>>)
\* the columns of t that refer to one of the tables shown
RefsAmong(t, ts) == SelectSeq(RefCols(t), LAMBDA c : HasName(ts, c.ref[1].table))
\* bags of links: how often each one occurs
CountOf(seq, x) == Len(SelectSeq(seq, LAMBDA y : y = x))
SameLinks(exp, obs) ==
    UNION { IF CountOf(exp, l) = CountOf(obs, l) THEN {}
            ELSE {<<"link", ToString(l), ToString(CountOf(exp, l)), ToString(CountOf(obs, l))>>} : l \in ToSetOf(exp) \cup ToSetOf(obs) }
DiffTables(exp, obs, Cmp(_, _, _)) ==
    IF Names(exp) # Names(obs) THEN {<<"diagram-tables", "", ToString(Names(exp)), ToString(Names(obs))>>}
    ELSE UNION { IF Names(exp[i].columns) # Names(obs[i].columns)
                 THEN {<<"diagram-columns", exp[i].name, ToString(Names(exp[i].columns)), ToString(Names(obs[i].columns))>>}
                 ELSE UNION { Cmp(exp[i].columns[j], obs[i].columns[j], exp[i].name \o "." \o exp[i].columns[j].name) : j \in 1..Len(exp[i].columns) }
                 : i \in 1..Len(exp) }

DbmlType(c) == c.type \o (IF c.size = 0 THEN "" ELSE IF c.scale = 0 THEN SizeOf(c) ELSE SizeScaleOf(c))
DbmlDefaultKind(c) ==
    IF c.default = "" THEN {""}
    ELSE IF IsFn(c.default) THEN {"function"}
    ELSE IF c.type \in NumTypes THEN {"number"}
    ELSE IF c.type = "boolean" THEN {"number", "boolean"}
    ELSE {"string"}
DiffDbmlColumn(c, x, where) ==
    Same("diagram-type", where, DbmlType(c), x.type)
    \cup Same("diagram-pk", where, c.pk, x.pk)
    \cup Same("diagram-unique", where, c.unique, x.unique)
    \cup Same("diagram-notnull", where, c.notnull, x.notnull)
    \cup Holds(x.defkind \in DbmlDefaultKind(c), "diagram-default-kind", where \o " " \o x.defkind)
    \cup LET word(d) == IF c.type = "boolean" THEN Lower(d) ELSE d IN
         Same("diagram-default", where, IF IsFn(c.default) THEN FnOf(c.default) ELSE word(c.default), IF IsFn(c.default) THEN x.default ELSE word(x.default))
    \cup Same("diagram-desc", where, c.desc, x.note)
ExportDbmlFails(s, o, v) ==
    LET ts == Sel(s, o.groups)
        link(t, c) == [table |-> t.name, column |-> c.name, rel |-> Arity(c, ">", "<", "-"),
                       totable |-> c.ref[1].table, tocolumn |-> c.ref[1].column]
        links == Flat([i \in 1..Len(ts) |-> LET rs == RefsAmong(ts[i], ts) IN [j \in 1..Len(rs) |-> link(ts[i], rs[j])]])
    IN  DiffTables(ts, v.tables, DiffDbmlColumn) \cup SameLinks(links, v.links)

\* one line per table and column: line breaks become blanks
OneLine(x) == JoinStr(SplitStr(JoinStr(SplitStr(x, "\n"), " "), "\r"), " ")
DiffQuickColumn(c, x, where) ==
    Same("diagram-type", where, c.type, x.type)
    \cup Same("diagram-pk", where, c.pk, x.pk)
    \cup Same("diagram-unique", where, c.unique, x.unique)
    \cup Same("diagram-autoinc", where, c.autoinc, x.autoinc)
    \cup Same("diagram-notnull", where, ~c.notnull, x.nullable)
    \cup Same("diagram-default", where, IF IsFn(c.default) THEN FnOf(c.default) ELSE OneLine(c.default), x.default)
    \cup Same("diagram-desc", where, OneLine(c.desc), x.desc)
ExportQuickFails(s, o, v) ==
    LET ts == s.tables
        link(t, c) == [table |-> t.name, column |-> c.name, rel |-> Arity(c, ">-", "-<", "-"),
                       totable |-> c.ref[1].table, tocolumn |-> c.ref[1].column]
        links == Flat([i \in 1..Len(ts) |-> LET rs == RefsAmong(ts[i], ts) IN [j \in 1..Len(rs) |-> link(ts[i], rs[j])]])
    IN  DiffTables(ts, v.tables, DiffQuickColumn)
        \cup (IF Names(ts) = Names(v.tables)
              THEN UNION { Same("diagram-table-desc", ts[i].name, OneLine(ts[i].desc), v.tables[i].desc) : i \in 1..Len(ts) } ELSE {})
        \cup SameLinks(links, v.links)

DiffPumlColumn(c, x, where) ==
    Same("diagram-type", where, c.type, x.type)
    \cup Same("diagram-notnull", where, c.notnull, x.notnull)
    \cup SameBag("diagram-marks", where, If(c.pk, "PK") \o If(c.unique, "UQ") \o If(c.ref # <<>>, "FK"), x.marks)
\* the rule below the key: before the first column outside the primary key
PumlRule(t) ==
    LET ks == { i \in 1..Len(t.columns) : ~t.columns[i].pk } IN
    IF ks = {} THEN <<>> ELSE <<(CHOOSE i \in ks : \A j \in ks : i <= j) - 1>>
GenPumlFails(s, o, v) ==
    LET ts == s.tables
        link(t, c) == [table |-> t.name, rel |-> Arity(c, "}o-||", "||-o{", "||-||"), totable |-> c.ref[1].table]
        links == Flat([i \in 1..Len(ts) |-> LET rs == RefsAmong(ts[i], ts) IN [j \in 1..Len(rs) |-> link(ts[i], rs[j])]])
    IN  DiffTables(ts, v.tables, DiffPumlColumn)
        \cup (IF Names(ts) = Names(v.tables)
              THEN UNION { Same("diagram-rule", ts[i].name, PumlRule(ts[i]), v.tables[i].rule) : i \in 1..Len(ts) } ELSE {})
        \cup SameLinks(links, v.links)
=============================================================================
