From dbf51713b48ad7a996f1855b9b939b9cd22c2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 01/81] fix: keep the size of binary and varbinary columns in
 MySQL DDL

---
 format/mysql/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index ce395c6..4138048 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -138,7 +138,7 @@ func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string
 func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	switch col.Type {
 	case octopus.ColTypeBinary:
-		return "binary"
+		return c.formatColumnType("binary", col)
 	case octopus.ColTypeBit:
 		return c.formatColumnType("bit", col)
 	case octopus.ColTypeBlob8:
@@ -194,7 +194,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeTime:
 		return "time"
 	case octopus.ColTypeVarbinary:
-		return "varbinary"
+		return c.formatColumnType("varbinary", col)
 	case octopus.ColTypeVarchar:
 		return c.formatColumnType("varchar", col)
 	case octopus.ColTypeYear:
-- 
2.43.0


From f162ae6d727620ff976c3e4388481985e8c72357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 02/81] fix: escape quotes and backslashes in MySQL string
 literals

---
 format/mysql/exporter.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 4138048..9816120 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -124,6 +124,21 @@ func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
 
+// quoteString returns a MySQL string literal
+func (c *Exporter) quoteString(value string) string {
+	escaped := strings.NewReplacer("\\", "\\\\", "'", "''").Replace(value)
+	return fmt.Sprintf("'%s'", escaped)
+}
+
+// quoteStrings returns MySQL string literals separated by comma
+func (c *Exporter) quoteStrings(values []string) string {
+	var literals []string
+	for _, value := range values {
+		literals = append(literals, c.quoteString(value))
+	}
+	return strings.Join(literals, ", ")
+}
+
 func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string {
 	if col.Size > 0 {
 		if col.Scale > 0 {
@@ -162,7 +177,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeDouble:
 		return c.formatColumnType("double", col)
 	case octopus.ColTypeEnum:
-		return "enum(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "enum(" + c.quoteStrings(col.Values) + ")"
 	case octopus.ColTypeFloat:
 		return c.formatColumnType("float", col)
 	case octopus.ColTypeGeometry:
@@ -182,7 +197,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypePoint:
 		return "point"
 	case octopus.ColTypeSet:
-		return "set(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "set(" + c.quoteStrings(col.Values) + ")"
 	case octopus.ColTypeText8:
 		return "tinytext"
 	case octopus.ColTypeText16:
@@ -221,7 +236,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				defaultValue = fmt.Sprintf("'%s'", defaultValue)
+				defaultValue = c.quoteString(defaultValue)
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -233,14 +248,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				onUpdate = fmt.Sprintf("'%s'", onUpdate)
+				onUpdate = c.quoteString(onUpdate)
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, fmt.Sprintf("COMMENT '%s'", column.Description))
+		constraints = append(constraints, "COMMENT "+c.quoteString(column.Description))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From 310b03d129f4986e77fab2ecaae9b8c02454e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:48 +0000
Subject: [PATCH 03/81] fix: quote date, time, enum and set literals in MySQL
 DDL

---
 format/mysql/exporter.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 9816120..2ca5160 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -124,6 +124,17 @@ func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
 
+// isQuotedType checks if literal values of the column type are written as string literals
+func (c *Exporter) isQuotedType(colType string) bool {
+	switch colType {
+	case octopus.ColTypeDate, octopus.ColTypeDateTime, octopus.ColTypeTime,
+		octopus.ColTypeEnum, octopus.ColTypeSet:
+		return true
+	default:
+		return util.IsStringType(colType) || octopus.IsColTypeString(colType)
+	}
+}
+
 // quoteString returns a MySQL string literal
 func (c *Exporter) quoteString(value string) string {
 	escaped := strings.NewReplacer("\\", "\\\\", "'", "''").Replace(value)
@@ -235,7 +246,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			defaultValue = defaultValue + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if c.isQuotedType(column.Type) {
 				defaultValue = c.quoteString(defaultValue)
 			}
 		}
@@ -247,7 +258,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			onUpdate = onUpdate + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if c.isQuotedType(column.Type) {
 				onUpdate = c.quoteString(onUpdate)
 			}
 		}
-- 
2.43.0


From eded5fcf63a30fda84fbde45aacb4ff82230d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 04/81] fix: import inline UNIQUE column constraints from MySQL
 DDL

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 1f4333d..02b0ccb 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -162,6 +162,8 @@ func (x *TableX) column(
 		case ast.ColumnOptionPrimaryKey:
 			column.PrimaryKey = true
 			column.NotNull = true
+		case ast.ColumnOptionUniqKey:
+			column.UniqueKey = true
 		case ast.ColumnOptionNotNull:
 			column.NotNull = true
 		case ast.ColumnOptionAutoIncrement:
-- 
2.43.0


From c286c8f1edc9e0ec6bb75a32a5816b822aef5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 05/81] fix: import table-level primary key columns as not null

---
 format/mysql/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 02b0ccb..115327c 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -153,7 +153,7 @@ func (x *TableX) column(
 		Scale:      colScale,
 		PrimaryKey: pkSet.Contains(name),
 		UniqueKey:  uniqSet.Contains(name),
-		NotNull:    false,
+		NotNull:    pkSet.Contains(name),
 		Values:     x.columnValues(colType, colDef),
 	}
 
-- 
2.43.0


From ae1e0d4923107756819c4c735ebd85fbe8c8c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 06/81] fix: import varbinary columns as varbinary

---
 format/mysql/importer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 115327c..c36c56b 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
+	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
@@ -268,6 +269,9 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 	case mysql.TypeNewDate:
 		return octopus.ColTypeDate, 0, 0
 	case mysql.TypeVarchar:
+		if colDef.Tp.Charset == charset.CharsetBin {
+			return octopus.ColTypeVarbinary, size, 0
+		}
 		return octopus.ColTypeVarchar, size, 0
 	case mysql.TypeBit:
 		if colDef.Tp.Flen == 1 {
-- 
2.43.0


From 9e9c59ba5254abc28e7152d82692c67d6efe65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 07/81] fix: import bit literal default values from MySQL DDL
 as numbers

---
 format/mysql/importer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index c36c56b..f7015e3 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -9,9 +9,10 @@ import (
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
-	_ "github.com/pingcap/parser/test_driver"
+	"github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
+	"math/big"
 	"strings"
 )
 
@@ -173,7 +174,7 @@ func (x *TableX) column(
 		case ast.ColumnOptionDefaultValue:
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
-				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
+				column.SetDefaultValue(x.literalValue(colOption.Expr.(ast.ValueExpr)))
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
 			default:
@@ -214,6 +215,15 @@ func (x *TableX) column(
 	return &column
 }
 
+// literalValue returns the value of a literal. bit literals are converted to decimal numbers.
+func (x *TableX) literalValue(expr ast.ValueExpr) interface{} {
+	value := expr.GetValue()
+	if literal, ok := value.(test_driver.BinaryLiteral); ok {
+		return new(big.Int).SetBytes(literal)
+	}
+	return value
+}
+
 func (x *TableX) columnValues(colType string, colDef *ast.ColumnDef) []string {
 	switch colType {
 	case octopus.ColTypeEnum:
-- 
2.43.0


From 591bbec46ab08b6e5b80e2d634fae742369152e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 08/81] fix: import signed default values from MySQL DDL

---
 format/mysql/importer.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index f7015e3..0402e30 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -9,6 +9,7 @@ import (
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
+	"github.com/pingcap/parser/opcode"
 	"github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
@@ -175,6 +176,12 @@ func (x *TableX) column(
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
 				column.SetDefaultValue(x.literalValue(colOption.Expr.(ast.ValueExpr)))
+			case *ast.UnaryOperationExpr:
+				if value, ok := x.signedValue(colOption.Expr.(*ast.UnaryOperationExpr)); ok {
+					column.SetDefaultValue(value)
+				} else {
+					fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
+				}
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
 			default:
@@ -224,6 +231,23 @@ func (x *TableX) literalValue(expr ast.ValueExpr) interface{} {
 	return value
 }
 
+// signedValue returns the value of a literal with a leading sign
+func (x *TableX) signedValue(expr *ast.UnaryOperationExpr) (string, bool) {
+	operand, ok := expr.V.(ast.ValueExpr)
+	if !ok {
+		return "", false
+	}
+	value := fmt.Sprintf("%v", x.literalValue(operand))
+	switch expr.Op {
+	case opcode.Minus:
+		return "-" + value, true
+	case opcode.Plus:
+		return value, true
+	default:
+		return "", false
+	}
+}
+
 func (x *TableX) columnValues(colType string, colDef *ast.ColumnDef) []string {
 	switch colType {
 	case octopus.ColTypeEnum:
-- 
2.43.0


From cc844990b2afaa7d2cf79f8798d9ef7abd34120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 09/81] fix: keep the letter case of column names imported from
 MySQL DDL

---
 format/mysql/importer.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 0402e30..fdeae67 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -84,6 +84,12 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			return in, false
 		}
 
+		// column names as declared, by case-insensitive name
+		columnNames := map[string]string{}
+		for _, colDef := range createTableStmt.Cols {
+			columnNames[colDef.Name.Name.L] = colDef.Name.Name.O
+		}
+
 		// constraints
 		pkSet := util.NewStringSet()
 		uniqSet := util.NewStringSet()
@@ -92,20 +98,20 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			switch cst.Tp {
 			case ast.ConstraintPrimaryKey:
 				for _, key := range cst.Keys {
-					pkSet.Add(key.Column.Name.String())
+					pkSet.Add(columnNames[key.Column.Name.L])
 				}
 			case ast.ConstraintKey:
 				break
 			case ast.ConstraintIndex:
 				var idxCols []string
 				for _, key := range cst.Keys {
-					idxCols = append(idxCols, key.Column.Name.String())
+					idxCols = append(idxCols, columnNames[key.Column.Name.L])
 				}
 				indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})
 				break
 			case ast.ConstraintUniq:
 				for _, key := range cst.Keys {
-					uniqSet.Add(key.Column.Name.String())
+					uniqSet.Add(columnNames[key.Column.Name.L])
 				}
 			case ast.ConstraintUniqKey:
 				break
@@ -147,7 +153,7 @@ func (x *TableX) column(
 	pkSet *util.StringSet,
 	uniqSet *util.StringSet,
 ) *octopus.Column {
-	name := colDef.Name.String()
+	name := colDef.Name.Name.O
 	colType, colLength, colScale := x.columnType(colDef)
 	column := octopus.Column{
 		Name:       name,
-- 
2.43.0


From 2ddf2adac18a44991034d9639eaca112b3330ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 10/81] fix: write numeric and boolean default values as such
 in liquibase changelogs

---
 format/liquibase/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index fd59005..0eb0eb1 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -411,9 +411,9 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
-		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true")
-	} else if util.IsNumericType(column.Type) {
-		if util.IsIntType(column.Type) {
+		result.DefaultValueBoolean = NewBool(strings.ToLower(column.DefaultValue) == "true" || column.DefaultValue == "1")
+	} else if octopus.IsColTypeNumeric(column.Type) {
+		if !octopus.IsColTypeDecimal(column.Type) {
 			if num, err := strconv.Atoi(column.DefaultValue); err != nil {
 				return nil, err
 			} else {
-- 
2.43.0


From 67f3229d82667e29ae3d301d215522692afa991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 11/81] fix: write function defaults as computed values in
 liquibase changelogs

---
 format/liquibase/generator.go | 72 +++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 0eb0eb1..74b2db2 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -270,11 +270,15 @@ type LqAddNotNullConstraint struct {
 }
 
 func newAddNotNullConstraint(table *octopus.Table, column *octopus.Column) *LqAddNotNullConstraint {
+	defaultNullValue, isFn := column.GetDefaultValue()
+	if isFn {
+		defaultNullValue = ""
+	}
 	return &LqAddNotNullConstraint{
 		TableName:        table.Name,
 		ColumnName:       column.Name,
 		ColumnDataType:   getLiquibaseType(column),
-		DefaultNullValue: column.DefaultValue,
+		DefaultNullValue: defaultNullValue,
 	}
 }
 
@@ -307,13 +311,14 @@ func newAddAutoIncrement(table *octopus.Table, column *octopus.Column) *LqAddAut
 }
 
 type LqAddDefaultValue struct {
-	TableName           string      `yaml:"tableName"`
-	ColumnName          string      `yaml:"columnName"`
-	ColumnDataType      string      `yaml:"columnDataType,omitempty"`
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	TableName            string      `yaml:"tableName"`
+	ColumnName           string      `yaml:"columnName"`
+	ColumnDataType       string      `yaml:"columnDataType,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDefaultValue, error) {
@@ -321,13 +326,14 @@ func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDef
 		return nil, err
 	} else {
 		return &LqAddDefaultValue{
-			TableName:           table.Name,
-			ColumnName:          column.Name,
-			ColumnDataType:      getLiquibaseType(column),
-			DefaultValue:        dv.DefaultValue,
-			DefaultValueBoolean: dv.DefaultValueBoolean,
-			DefaultValueNumeric: dv.DefaultValueNumeric,
-			DefaultValueDate:    dv.DefaultValueDate,
+			TableName:            table.Name,
+			ColumnName:           column.Name,
+			ColumnDataType:       getLiquibaseType(column),
+			DefaultValue:         dv.DefaultValue,
+			DefaultValueBoolean:  dv.DefaultValueBoolean,
+			DefaultValueNumeric:  dv.DefaultValueNumeric,
+			DefaultValueDate:     dv.DefaultValueDate,
+			DefaultValueComputed: dv.DefaultValueComputed,
 		}, nil
 	}
 }
@@ -399,15 +405,21 @@ func newDropUniqueConstraint(table *octopus.Table, uniqueConstraintName string)
 // ----------------------------------------------------------------------------
 
 type LqDefaultValue struct {
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	result := LqDefaultValue{}
 
+	if fn, ok := column.GetDefaultValue(); ok {
+		result.DefaultValueComputed = fn
+		return &result, nil
+	}
+
 	if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
@@ -436,16 +448,17 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 }
 
 type LqColumn struct {
-	Name                string         `yaml:"name"`
-	Type                string         `yaml:"type"`
-	AutoIncrement       *bool          `yaml:"autoIncrement,omitempty"`
-	Constraints         *LqConstraints `yaml:"constraints,omitempty"`
-	Remarks             string         `yaml:"remarks,omitempty"`
-	DefaultValue        string         `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool          `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{}    `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string         `yaml:"defaultValueDate,omitempty"`
-	AfterColumn         string         `yaml:"afterColumn,omitempty"`
+	Name                 string         `yaml:"name"`
+	Type                 string         `yaml:"type"`
+	AutoIncrement        *bool          `yaml:"autoIncrement,omitempty"`
+	Constraints          *LqConstraints `yaml:"constraints,omitempty"`
+	Remarks              string         `yaml:"remarks,omitempty"`
+	DefaultValue         string         `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool          `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{}    `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string         `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string         `yaml:"defaultValueComputed,omitempty"`
+	AfterColumn          string         `yaml:"afterColumn,omitempty"`
 }
 
 func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq bool) (*LqColumn, error) {
@@ -487,6 +500,7 @@ func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq
 			lc.DefaultValueBoolean = dv.DefaultValueBoolean
 			lc.DefaultValueNumeric = dv.DefaultValueNumeric
 			lc.DefaultValueDate = dv.DefaultValueDate
+			lc.DefaultValueComputed = dv.DefaultValueComputed
 		}
 	}
 	return &lc, nil
-- 
2.43.0


From 4aadb3d44b56b1b3b80eca04cb7a65ab8a1ab35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 12/81] fix: write the members of enum and set types in
 liquibase changelogs

---
 format/liquibase/diff.go      | 2 +-
 format/liquibase/generator.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 1c6594c..705da21 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -319,7 +319,7 @@ func (c *Diff) diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if getLiquibaseType(column) != getLiquibaseType(oldColumn) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("modifyDataType", newModifyDataType(table, column))
 		changeSets = append(changeSets, changeSet)
diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 74b2db2..c9766dc 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -618,6 +618,12 @@ func getLiquibaseType(column *octopus.Column) string {
 		fallthrough
 	case octopus.ColTypeBlob32:
 		typ = "blob"
+	case octopus.ColTypeEnum, octopus.ColTypeSet:
+		members := make([]string, len(column.Values))
+		for i, value := range column.Values {
+			members[i] = "'" + strings.ReplaceAll(value, "'", "''") + "'"
+		}
+		return fmt.Sprintf("%s(%s)", column.Type, strings.Join(members, ","))
 	default:
 		typ = column.Type
 	}
-- 
2.43.0


From ef93e2684eec801b8254a24d04da8edb5376e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 13/81] fix: columns with different enum values are not renames
 of each other

---
 format/octopus/column.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/octopus/column.go b/format/octopus/column.go
index 8aae547..ef4df4f 100644
--- a/format/octopus/column.go
+++ b/format/octopus/column.go
@@ -94,7 +94,8 @@ func (c *Column) IsRenamed(target *Column, excludeDescription bool) bool {
 		c.UniqueKey == target.UniqueKey &&
 		c.AutoIncremental == target.AutoIncremental &&
 		c.DefaultValue == target.DefaultValue &&
-		c.OnUpdate == target.OnUpdate
+		c.OnUpdate == target.OnUpdate &&
+		strings.Join(c.Values, "\x00") == strings.Join(target.Values, "\x00")
 }
 
 func (c *Column) Validate(autoCorrect bool) error {
-- 
2.43.0


From daacc2a5022eb30f49b176d9ed07fa89cee6a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 14/81] fix: diff liquibase honours the unique name suffix

---
 format/diff/cli.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/format/diff/cli.go b/format/diff/cli.go
index 54e7ca0..d9aba94 100644
--- a/format/diff/cli.go
+++ b/format/diff/cli.go
@@ -70,11 +70,12 @@ func LiquibaseAction(c *cli.Context) error {
 
 	return liquibase.NewDiff(
 		&liquibase.DiffOption{
-			Author:      c.String(FlagAuthor),
-			DiffFrom:    fromSchema,
-			DiffTo:      toSchema,
-			TableFilter: octopus.GetTableFilterFn(c.String(FlagGroups)),
-			UseComments: c.Bool(FlagUseComments),
+			Author:           c.String(FlagAuthor),
+			DiffFrom:         fromSchema,
+			DiffTo:           toSchema,
+			TableFilter:      octopus.GetTableFilterFn(c.String(FlagGroups)),
+			UniqueNameSuffix: c.String(FlagUniqueNameSuffix),
+			UseComments:      c.Bool(FlagUseComments),
 		},
 	).Generate(c.String(FlagOutput))
 }
-- 
2.43.0


From 7d1e839b45e324b2b14b897ddc04276b1bfd2677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 15/81] fix: liquibase diff drops and adds unique constraints
 only where there are any

---
 format/liquibase/diff.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 705da21..5d952c7 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -226,7 +226,7 @@ func (c *Diff) diffTable(
 	uniqueChanged := !uqSet.Equals(oldUqSet)
 
 	// drop unique constraint
-	if uniqueChanged {
+	if uniqueChanged && oldUqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("dropUniqueConstraint", newDropUniqueConstraint(table, uniqueConstraintName))
@@ -289,13 +289,11 @@ func (c *Diff) diffTable(
 	}
 
 	// add unique constraint
-	if uniqueChanged {
+	if uniqueChanged && uqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		if uqSet.Size() > 0 {
-			uniqueColumeNames := uqSet.Join(", ")
-			changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
-		}
+		uniqueColumeNames := uqSet.Join(", ")
+		changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
 		changeSets = append(changeSets, changeSet)
 	}
 
-- 
2.43.0


From 628500bdd241e69d2fdad3850503c1ce43ef6709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 16/81] fix: liquibase diff leaves tables of unselected groups
 alone

---
 format/liquibase/diff.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 5d952c7..8414429 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -48,6 +48,11 @@ func (c *Diff) generate() ([]byte, error) {
 	useComments := option.UseComments
 
 	fromTableByName := option.DiffFrom.TablesByName()
+	for name, table := range fromTableByName {
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			delete(fromTableByName, name)
+		}
+	}
 	author := util.IfThenElseString(option.Author != "", option.Author, option.DiffTo.Author)
 
 	var addedTables []*octopus.Table
-- 
2.43.0


From de2d08891c0f058fbda6187fe561af1416fcbf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 17/81] fix: liquibase diff writes renames in a fixed order

---
 format/liquibase/diff.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 8414429..a8c4884 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -116,7 +116,11 @@ func (c *Diff) generate() ([]byte, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -246,7 +250,11 @@ func (c *Diff) diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("renameColumn", newRenameColumn(table, newColumn, oldColumn))
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From 2aabfc27e10d08548dda2850cec179edd35634d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 18/81] fix: liquibase diff updates the remarks of renamed
 tables

---
 format/liquibase/diff.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index a8c4884..16187a8 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -137,6 +137,13 @@ func (c *Diff) generate() ([]byte, error) {
 			result.AddChangeSet(changeSet)
 		}
 
+		// table remarks
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newLqChangeSet(id.bumpMinor(), author)
+			changeSet.Append("setTableRemarks", newSetTableRemarks(newTable))
+			result.AddChangeSet(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
-- 
2.43.0


From c57900f6481935bedd40a897a15f3fea77ed3d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 19/81] fix: liquibase diff drops the primary key before its
 columns and keeps key columns not null

---
 format/liquibase/diff.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 16187a8..d0ff3b2 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -195,6 +195,16 @@ func (c *Diff) diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	// drop primary key
+	pkSet := table.PrimaryKeyNameSet()
+	oldPkSet := oldTable.PrimaryKeyNameSet()
+	pkChanged := !pkSet.Equals(oldPkSet)
+	if pkChanged && oldPkSet.Size() > 0 {
+		changeSet := newLqChangeSet(id.bumpMinor(), author)
+		changeSet.Append("dropPrimaryKey", newDropPrimaryKey(table))
+		changeSets = append(changeSets, changeSet)
+	}
+
 	oldColumnByName := oldTable.ColumnNameMap()
 
 	var addedColumns []*octopus.Column
@@ -293,18 +303,11 @@ func (c *Diff) diffTable(
 		}
 	}
 
-	// primary key
-	pkSet := table.PrimaryKeyNameSet()
-	oldPkSet := oldTable.PrimaryKeyNameSet()
-	if !pkSet.Equals(oldPkSet) {
+	// add primary key
+	if pkChanged && pkSet.Size() > 0 {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		if oldPkSet.Size() > 0 {
-			changeSet.Append("dropPrimaryKey", newDropPrimaryKey(table))
-		}
-		if pkSet.Size() > 0 {
-			pkColumeNames := pkSet.Join(", ")
-			changeSet.Append("addPrimaryKey", newAddPrimaryKey(table, pkColumeNames))
-		}
+		pkColumeNames := pkSet.Join(", ")
+		changeSet.Append("addPrimaryKey", newAddPrimaryKey(table, pkColumeNames))
 		changeSets = append(changeSets, changeSet)
 	}
 
@@ -349,9 +352,11 @@ func (c *Diff) diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.NotNull != oldColumn.NotNull {
+	// primary key columns are not null
+	notNull := column.NotNull || column.PrimaryKey
+	if notNull != (oldColumn.NotNull || oldColumn.PrimaryKey) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		if column.NotNull {
+		if notNull {
 			changeSet.Append("addNotNullConstraint", newAddNotNullConstraint(table, column))
 		} else {
 			changeSet.Append("dropNotNullConstraint", newDropNotNullConstraint(table, column))
-- 
2.43.0


From 1d2c556104ad93be798077735d45a7d4ab7381fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 20/81] fix: an explicitly empty list of values does not hide a
 table rename

---
 format/octopus/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index 96ce2b5..483989a 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -184,6 +184,9 @@ func (s *Schema) Normalize() error {
 	for _, table := range s.Tables {
 		for _, column := range table.Columns {
 			column.NormalizeType()
+			if len(column.Values) == 0 {
+				column.Values = nil
+			}
 
 			if err := column.Validate(true); err != nil {
 				return fmt.Errorf("table: '%s': %w", table.Name, err)
-- 
2.43.0


From f48ddbd2048d12939c1e43168c7e549d5c1b89bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 21/81] fix: diff md and flyway report added columns

---
 format/diff/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 258bd25..c520df2 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -249,6 +249,7 @@ func diffTable(
 				AfterColumn:  nil,
 			})
 		}
+		changeSets = append(changeSets, changeSet)
 	}
 
 	// primary key
-- 
2.43.0


From 78aa3a5c874d81d1f46133a44aedc7aa08f820a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 22/81] fix: diff md and flyway write renames in a fixed order

---
 format/diff/diff.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index c520df2..b1803e1 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -93,7 +93,11 @@ func getDiff(option *Option) (*Result, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -224,7 +228,11 @@ func diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&RenameColumn{Table: table, OldColumn: oldColumn, NewColumn: newColumn})
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From ef329dcea8d123295766f1d8500e167392338c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 23/81] fix: diff md and flyway leave tables of unselected
 groups alone

---
 format/diff/diff.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index b1803e1..3214001 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -30,6 +30,11 @@ func getDiff(option *Option) (*Result, error) {
 	useComments := option.UseComments
 
 	fromTableByName := option.DiffFrom.TablesByName()
+	for name, table := range fromTableByName {
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			delete(fromTableByName, name)
+		}
+	}
 	author := util.IfThenElseString(option.Author != "", option.Author, option.DiffTo.Author)
 
 	var addedTables []*octopus.Table
-- 
2.43.0


From 780db9bfdda157119be7ced57bff56b54cd83678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 24/81] fix: diff md and flyway report comments of renamed
 tables

---
 format/diff/diff.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 3214001..b6d8f2d 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -122,6 +122,13 @@ func getDiff(option *Option) (*Result, error) {
 			result.Add(changeSet)
 		}
 
+		// table comment
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newDiffChangeSet(id.bumpMinor(), author)
+			changeSet.Add(&SetTableComment{Table: newTable})
+			result.Add(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
-- 
2.43.0


From 17b2156e810261c4271fef0faf68e85c5b117102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 25/81] fix: diff md and flyway report changed enum and set
 values

---
 format/diff/diff.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index b6d8f2d..df2959f 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -311,7 +311,8 @@ func diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale ||
+		!cmp.Equal(column.Values, oldColumn.Values) {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&ChangeColumnType{Table: table, OldColumn: oldColumn, NewColumn: column})
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From 1f0f08d7cf9a8e0b00f4d445c7f2686a525ffa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 26/81] fix: diff flyway adds columns with valid SQL at their
 position

---
 format/diff/diff.go  | 13 +++++++------
 format/diff/mysql.go |  7 ++++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index df2959f..93983e8 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -262,12 +262,13 @@ func diffTable(
 	if len(finalAddedColumns) > 0 {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		for _, column := range finalAddedColumns {
-			changeSet.Add(&AddColumn{
-				Table:        table,
-				Column:       column,
-				BeforeColumn: nil,
-				AfterColumn:  nil,
-			})
+			addColumn := &AddColumn{Table: table, Column: column}
+			for i, c := range table.Columns {
+				if c == column && i > 0 {
+					addColumn.AfterColumn = table.Columns[i-1]
+				}
+			}
+			changeSet.Add(addColumn)
 		}
 		changeSets = append(changeSets, changeSet)
 	}
diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 120f678..38fd996 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -118,10 +118,15 @@ func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
 	colConstraints := b.mysqlExporter.ColumnConstraints(column)
 
-	sql := fmt.Sprintf("ALTER TABLE %s MODIFY ADD %s %s", tableName, column.Name, columnType)
+	sql := fmt.Sprintf("ALTER TABLE %s ADD COLUMN %s %s", tableName, column.Name, columnType)
 	if colConstraints != "" {
 		sql += " " + colConstraints
 	}
+	if c.AfterColumn != nil {
+		sql += " AFTER " + c.AfterColumn.Name
+	} else {
+		sql += " FIRST"
+	}
 	return []string{sql + ";"}, nil
 }
 
-- 
2.43.0


From c5ffb851779852a3d93127aeece5a9a9119f5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 27/81] fix: diff flyway keeps the other attributes of a
 modified column

---
 format/diff/mysql.go | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 38fd996..866c0dc 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/mysql"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"reflect"
 	"strings"
 )
@@ -151,36 +152,22 @@ func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error)
 }
 
 func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
+	return b.toModifyColumnSQL(c.Table, c.Column)
+}
 
-	var sql string
-	if column.NotNull {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s NOT NULL;", tableName, column.Name, columnType)
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s;", tableName, column.Name, columnType)
+// toModifyColumnSQL returns SQL to redefine a column.
+// MySQL resets every attribute that is not repeated.
+func (b *MysqlQueryBuilder) toModifyColumnSQL(table *octopus.Table, column *octopus.Column) ([]string, error) {
+	sql := fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s",
+		table.Name, column.Name, b.mysqlExporter.ToMysqlColumnType(column))
+	if colConstraints := b.mysqlExporter.ColumnConstraints(column); colConstraints != "" {
+		sql += " " + colConstraints
 	}
-	return []string{sql}, nil
+	return []string{sql + ";"}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnName := column.Name
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-
-	var sql string
-	if c.Column.AutoIncremental {
-		sql = strings.Join([]string{
-			fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType),
-			b.mysqlExporter.ColumnConstraints(column),
-		}, " ") + ";"
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s AUTO_INCREMENT PRIMARY KEY;",
-			tableName, columnName, columnType)
-	}
-	return []string{sql}, nil
+	return b.toModifyColumnSQL(c.Table, c.Column)
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-- 
2.43.0


From 72ef3bf2d829606dd858c5d4752688f872db7e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 28/81] fix: diff flyway writes a statement for every kind of
 change

---
 format/diff/mysql.go     | 38 ++++++++++++++++++++++----------------
 format/mysql/exporter.go | 12 ++++++------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 866c0dc..192b247 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -99,18 +99,22 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 }
 
 func (b *MysqlQueryBuilder) toCreateUniqueConstraintSQL(c *CreateUniqueConstraint) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s ADD UNIQUE KEY `%s` (%s);",
+			c.Table.Name, c.ConstraintName, strings.Join(c.Table.UniqueKeyNameSet().Slice(), ", ")),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toDropUniqueConstraintSQL(c *DropUniqueConstraint) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s DROP INDEX `%s`;", c.Table.Name, c.ConstraintName),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetTableCommentSQL(c *SetTableComment) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s COMMENT = %s;", c.Table.Name, b.mysqlExporter.QuoteString(c.Table.Description)),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
@@ -132,23 +136,26 @@ func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 }
 
 func (b *MysqlQueryBuilder) toDropColumnSQL(c *DropColumn) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s DROP COLUMN %s;", c.Table.Name, c.ColumnName),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetColumnCommentSQL(c *SetColumnComment) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.toModifyColumnSQL(c.Table, c.Column)
 }
 
 func (b *MysqlQueryBuilder) toChangeColumnTypeSQL(c *ChangeColumnType) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.toModifyColumnSQL(c.Table, c.NewColumn)
 }
 
 func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error) {
-	// TODO
-	return nil, nil
+	sql := fmt.Sprintf("ALTER TABLE %s CHANGE COLUMN %s %s %s",
+		c.Table.Name, c.OldColumn.Name, c.NewColumn.Name, b.mysqlExporter.ToMysqlColumnType(c.NewColumn))
+	if colConstraints := b.mysqlExporter.ColumnConstraints(c.NewColumn); colConstraints != "" {
+		sql += " " + colConstraints
+	}
+	return []string{sql + ";"}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
@@ -171,6 +178,5 @@ func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.toModifyColumnSQL(c.Table, c.Column)
 }
diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 2ca5160..88732a5 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -135,8 +135,8 @@ func (c *Exporter) isQuotedType(colType string) bool {
 	}
 }
 
-// quoteString returns a MySQL string literal
-func (c *Exporter) quoteString(value string) string {
+// QuoteString returns a MySQL string literal
+func (c *Exporter) QuoteString(value string) string {
 	escaped := strings.NewReplacer("\\", "\\\\", "'", "''").Replace(value)
 	return fmt.Sprintf("'%s'", escaped)
 }
@@ -145,7 +145,7 @@ func (c *Exporter) quoteString(value string) string {
 func (c *Exporter) quoteStrings(values []string) string {
 	var literals []string
 	for _, value := range values {
-		literals = append(literals, c.quoteString(value))
+		literals = append(literals, c.QuoteString(value))
 	}
 	return strings.Join(literals, ", ")
 }
@@ -247,7 +247,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if c.isQuotedType(column.Type) {
-				defaultValue = c.quoteString(defaultValue)
+				defaultValue = c.QuoteString(defaultValue)
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -259,14 +259,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if c.isQuotedType(column.Type) {
-				onUpdate = c.quoteString(onUpdate)
+				onUpdate = c.QuoteString(onUpdate)
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, "COMMENT "+c.quoteString(column.Description))
+		constraints = append(constraints, "COMMENT "+c.QuoteString(column.Description))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From ec5e528f6c5e8eb7e68af7704ed14fd3bf7d0801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 29/81] fix: diff flyway drops only primary keys that exist

---
 format/diff/mysql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 192b247..6e7ee71 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -87,8 +87,9 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 	tableName := table.Name
 	pkColumnNames := table.PrimaryKeyNameSet().Slice()
 
-	result := []string{
-		fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName),
+	var result []string
+	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
+		result = append(result, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName))
 	}
 
 	if len(pkColumnNames) > 0 {
-- 
2.43.0


From 2d39b9b43a9fe2d51bbd68344389bfc9865e65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 30/81] fix: diff flyway drops columns after they left the
 primary key

---
 format/diff/diff.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 93983e8..4a93016 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -168,6 +168,7 @@ func diffTable(
 	uniqueNameSuffix string,
 ) ([]*ChangeSet, error) {
 	var changeSets []*ChangeSet
+	var columnChangeSets []*ChangeSet
 
 	if useComments && table.Description != oldTable.Description {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
@@ -198,7 +199,7 @@ func diffTable(
 			return nil, err
 		} else {
 			for _, change := range changes {
-				changeSets = append(changeSets, change)
+				columnChangeSets = append(columnChangeSets, change)
 			}
 		}
 	}
@@ -232,13 +233,6 @@ func diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	// removed columns
-	for _, columnName := range removedColumnNameSet.Slice() {
-		changeSet := newDiffChangeSet(id.bumpMinor(), author)
-		changeSet.Add(&DropColumn{Table: table, ColumnName: columnName})
-		changeSets = append(changeSets, changeSet)
-	}
-
 	// renamed columns
 	for _, newColumn := range addedColumns {
 		oldColumn, ok := renamedColumnMap[newColumn]
@@ -282,6 +276,16 @@ func diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	// changed columns: after the primary key, which decides their nullability
+	changeSets = append(changeSets, columnChangeSets...)
+
+	// removed columns
+	for _, columnName := range removedColumnNameSet.Slice() {
+		changeSet := newDiffChangeSet(id.bumpMinor(), author)
+		changeSet.Add(&DropColumn{Table: table, ColumnName: columnName})
+		changeSets = append(changeSets, changeSet)
+	}
+
 	// unique constraint
 	if uniqueChanged && uqSet.Size() > 0{
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
-- 
2.43.0


From 2a7064bace510d454ab57bb89de28b53f5f89dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 31/81] fix: diff flyway makes columns nullable that leave the
 primary key

---
 format/diff/mysql.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 6e7ee71..6a808a5 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -96,6 +96,19 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 		result = append(result,
 			fmt.Sprintf("ALTER TABLE %s ADD PRIMARY KEY (%s);", tableName, strings.Join(pkColumnNames, ",")))
 	}
+
+	// columns stay NOT NULL when they leave the primary key
+	for _, oldColumn := range c.OldTable.Columns {
+		column := table.ColumnByName(oldColumn.Name)
+		if !oldColumn.PrimaryKey || column == nil || column.PrimaryKey || column.NotNull {
+			continue
+		}
+		sqls, err := b.toModifyColumnSQL(table, column)
+		if err != nil {
+			return nil, err
+		}
+		result = append(result, sqls...)
+	}
 	return result, nil
 }
 
-- 
2.43.0


From 9fc73cb768b81ea8601f939cbc1e7c7db8843e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 32/81] fix: import default values from octopus v1 files

---
 format/ojson/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index a02c5dc..c9d60c1 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -82,7 +82,7 @@ func (c *Importer) fromOjsonColumn(column1 *Column) *octopus.Column {
 		PrimaryKey:      column1.PrimaryKey,
 		UniqueKey:       column1.UniqueKey,
 		AutoIncremental: column1.AutoIncremental,
-		DefaultValue:    column1.Description,
+		DefaultValue:    column1.DefaultValue,
 		Ref:             ref,
 	}
 }
-- 
2.43.0


From c9f12ac139664e557addaae5066d0165d335d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 33/81] fix: import class names from octopus v1 files

---
 format/ojson/importer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c9d60c1..c89aeae 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -61,6 +61,7 @@ func (c *Importer) fromOjsonTable(table1 *Table) *octopus.Table {
 		Columns:     columns,
 		Description: table1.Description,
 		Group:       table1.Group,
+		ClassName:   table1.ClassName,
 	}
 }
 
-- 
2.43.0


From f28971e65af6ef09739143484792742e695cf8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 34/81] fix: parse sizes of types whose name ends in a digit

---
 util/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/types.go b/util/types.go
index 18b0ede..e456b5b 100644
--- a/util/types.go
+++ b/util/types.go
@@ -64,7 +64,7 @@ func IsDateType(typ string) bool {
 // ParseType parses column type
 // returns name, size, scale
 func ParseType(str string) (string, uint16, uint16) {
-	r := regexp.MustCompile(`(?m)([a-zA-Z]+)\(([0-9]+)[\s,]*([0-9]*)\)`)
+	r := regexp.MustCompile(`(?m)([a-zA-Z][a-zA-Z0-9]*)\(([0-9]+)[\s,]*([0-9]*)\)`)
 	groups, _ := MatchRegexGroups(r, str)
 	groupCount := len(groups)
 
-- 
2.43.0


From 60edd141b52892fa4158bd8786a0d7d530dbada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 35/81] fix: import numeric column lengths from StarUML models

---
 util/string.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/string.go b/util/string.go
index da1bcbd..736f414 100644
--- a/util/string.go
+++ b/util/string.go
@@ -18,6 +18,8 @@ func ToInt(value interface{}, defaultValue int) int {
 		return i
 	case int:
 		return value.(int)
+	case float64:
+		return int(value.(float64))
 	default:
 		return defaultValue
 	}
-- 
2.43.0


From bd74a56ca6f1439ca6859552807f23059477d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 36/81] fix: import the entities of every ER data model of a
 StarUML project

---
 format/staruml/importer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index d036f72..680c456 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -54,7 +54,10 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 		return nil, errors.New("ERDDataModel not found")
 	}
 
-	erdEntities := c.findByType(erdDataModels[0].OwnedElements, "ERDEntity")
+	var erdEntities []*Element
+	for _, erdDataModel := range erdDataModels {
+		erdEntities = append(erdEntities, c.findByType(erdDataModel.OwnedElements, "ERDEntity")...)
+	}
 	var tables []*octopus.Table
 	for _, erdEntity := range erdEntities {
 		// Create Columns
-- 
2.43.0


From e6107274529905990ed1d1ad5a730a3e546bbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:08 +0000
Subject: [PATCH 37/81] fix: export ON UPDATE values to xlsx

---
 format/xlsx/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index 5a82235..c555688 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -264,7 +264,7 @@ func getColumnAttributes(column *octopus.Column) []string {
 		attrs = append(attrs, attrDefault+"="+column.DefaultValue)
 	}
 	if column.OnUpdate != "" {
-		attrs = append(attrs, attrOnUpdate+"="+column.DefaultValue)
+		attrs = append(attrs, attrOnUpdate+"="+column.OnUpdate)
 	}
 
 	return attrs
-- 
2.43.0


From 23fe3c1ce5c921061d1f79c72bb1e2614fb7566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:27 +0000
Subject: [PATCH 38/81] fix: strip the relationship sign from reference tables
 imported from xlsx

---
 format/xlsx/constants.go |  4 ++++
 format/xlsx/importer.go  | 19 +++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/format/xlsx/constants.go b/format/xlsx/constants.go
index 9bbef06..c82d973 100644
--- a/format/xlsx/constants.go
+++ b/format/xlsx/constants.go
@@ -17,6 +17,10 @@ const (
 	keyUnique  = "U"
 	keyIndex   = "I"
 
+	refPrefixManyToOne = ">"
+	refPrefixOneToMany = "<"
+	refPrefixOneToOne  = "-"
+
 	attrAutoInc  = "autoInc"
 	attrClass    = "class"
 	attrDefault  = "default"
diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index e2c282f..df99a2a 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -203,16 +203,19 @@ func parseReference(s string) *octopus.Reference {
 			column := tokens[1]
 
 			if table != "" && column != "" {
-				var relationship string
-				switch []rune(table)[0] {
-				case '>':
-					relationship = octopus.RefManyToOne
-				case '<':
+				relationship := octopus.RefManyToOne
+				switch table[:1] {
+				case refPrefixManyToOne:
+					table = table[1:]
+				case refPrefixOneToMany:
 					relationship = octopus.RefOneToMany
-				case '-':
+					table = table[1:]
+				case refPrefixOneToOne:
 					relationship = octopus.RefOneToOne
-				default:
-					relationship = octopus.RefManyToOne
+					table = table[1:]
+				}
+				if table == "" {
+					return nil
 				}
 				return &octopus.Reference{
 					Table:        table,
-- 
2.43.0


From bb35339b36bfa4bc8609f1c11649d88ec0c087b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:27 +0000
Subject: [PATCH 39/81] fix: export the relationship of references to xlsx

---
 format/xlsx/exporter.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index c555688..a169086 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -272,7 +272,14 @@ func getColumnAttributes(column *octopus.Column) []string {
 
 func getColumnReference(column *octopus.Column) string {
 	if ref := column.Ref; ref != nil {
-		return fmt.Sprintf("%s.%s", ref.Table, ref.Column)
+		prefix := refPrefixManyToOne
+		switch ref.Relationship {
+		case octopus.RefOneToMany:
+			prefix = refPrefixOneToMany
+		case octopus.RefOneToOne:
+			prefix = refPrefixOneToOne
+		}
+		return fmt.Sprintf("%s%s.%s", prefix, ref.Table, ref.Column)
 	}
 	return ""
 }
-- 
2.43.0


From f9b7c018e90f971ab2af8845ebbbbf52d5a683c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:27 +0000
Subject: [PATCH 40/81] fix: accept the documented autoinc attribute in xlsx
 files

---
 format/xlsx/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index df99a2a..a4a6f47 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -162,7 +162,7 @@ func readGroupSheet(groupName string, sheet *xlsx.Sheet) ([]*octopus.Table, erro
 				NotNull:         util.IfThenElseBool(useNotNullColumn, nullableValue != "", nullableValue == ""),
 				PrimaryKey:      keyValue == keyPrimary,
 				UniqueKey:       keyValue == keyUnique,
-				AutoIncremental: attrMap[attrAutoInc] == "true",
+				AutoIncremental: attrMap[attrAutoInc] == "true" || attrMap[strings.ToLower(attrAutoInc)] == "true",
 				DefaultValue:    attrMap[attrDefault],
 				OnUpdate:        attrMap[attrOnUpdate],
 				Ref:             ref,
-- 
2.43.0


From 0100929ae0320af5400846737a8e7d9e86c38387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 41/81] fix: generate pb honours --relationTagStart and
 --relationTagDecr

---
 format/protobuf/cli.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/protobuf/cli.go b/format/protobuf/cli.go
index a5c0da8..0e3efa7 100644
--- a/format/protobuf/cli.go
+++ b/format/protobuf/cli.go
@@ -36,8 +36,8 @@ func Action(c *cli.Context) error {
 			Package:          c.String(FlagPackage),
 			GoPackage:        c.String(FlagGoPackage),
 			FilePath:         c.String(FlagOutput),
-			RelationTagStart: -1,
-			RelationTagDecr:  false,
+			RelationTagStart: c.Int(FlogRelationTagStart),
+			RelationTagDecr:  c.Bool(FlogRelationTagDecr),
 		},
 	)
 	buf := new(bytes.Buffer)
@@ -98,8 +98,9 @@ var CliFlags = []cli.Flag{
 		Usage:   "set relation tags decremental from `relationTagStart`",
 		EnvVars: []string{"OCTOPUS_RELATION_TAG_DECR"},
 	},
-	&cli.StringFlag{
+	&cli.IntFlag{
 		Name:    FlogRelationTagStart,
+		Value:   -1,
 		Aliases: []string{"s"},
 		Usage:   "set relation tags start index. set -1 to start from last of fields.",
 		EnvVars: []string{"OCTOPUS_RELATION_TAG_START"},
-- 
2.43.0


From 4020d26fb084a1c13d549c8c2bc73c58be252e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 42/81] fix: number protobuf relations downwards with
 --relationTagDecr

---
 format/protobuf/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 52fb0ac..ad4cc41 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -218,7 +218,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 
 	// update tag of relations
 	for i, relation := range relations {
-		relation.Tag = relTagStart + i
+		if relTagDecr {
+			relation.Tag = relTagStart - i
+		} else {
+			relation.Tag = relTagStart + i
+		}
 	}
 
 	return &PbMessage{
-- 
2.43.0


From a970f8af3fef25547faef04763080f4f2333e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 43/81] fix: protobuf relations refer to messages of the same
 file only

---
 format/protobuf/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index ad4cc41..58d6cc6 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -188,6 +188,10 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		// reference
 		if ref := column.Ref; ref != nil {
 			refTable := t.schema.TableByName(ref.Table)
+			// skip if the message is not defined
+			if refTable == nil || (t.option.TableFilter != nil && !t.option.TableFilter(refTable)) {
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From 6bd6d40cbbede659f21d91c35f16a209ac95312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 44/81] fix: one-to-many relations are repeated protobuf fields

---
 format/protobuf/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 58d6cc6..eda7320 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -116,7 +116,7 @@ message {{.Name}} {
   {{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
   {{- range .Relations}}
-  {{.Type}} {{.Name}} = {{.Tag}};
+  {{if .Repeated}}repeated {{end}}{{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
 }
 {{end}}`
-- 
2.43.0


From 609bb4f5eeb1c1a685601be160275b217ba0220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 45/81] fix: select gorm embedded models in a fixed order

---
 format/gorm/gorm_model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 0259bad..fd0ff2b 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -3,6 +3,7 @@ package gorm
 import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -54,6 +55,7 @@ func (m EmbeddedModels) Names() []string {
 	for name, _ := range m {
 		names = append(names, name)
 	}
+	sort.Strings(names)
 	return names
 }
 
@@ -82,7 +84,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	}
 
 	result := EmbeddedModels{}
-	for name, model := range embeddedModels {
+	for _, name := range embeddedModels.Names() {
+		model := embeddedModels[name]
 		if columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
-- 
2.43.0


From 98e2bf458645125dc34a8c266b4f69c309f741b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 46/81] fix: a gorm embedded model without columns is not
 embedded

---
 format/gorm/gorm_model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index fd0ff2b..a726c43 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -86,7 +86,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	result := EmbeddedModels{}
 	for _, name := range embeddedModels.Names() {
 		model := embeddedModels[name]
-		if columnNameSet.ContainsAll(model.ColumnNames) {
+		// a model without columns is disabled
+		if len(model.ColumnNames) > 0 && columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
 		}
-- 
2.43.0


From 43e47f82652d7dbd7a52a8962dbe6ebd325c46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 47/81] fix: import null.v4 only in gorm files that use it

---
 format/gorm/gorm.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index d66b8c2..3806994 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -97,9 +97,6 @@ func NewGoField(column *octopus.Column) *GoField {
 	var fieldType string
 	importSet := util.NewStringSet()
 	nullable := !column.NotNull
-	if nullable {
-		importSet.Add("gopkg.in/guregu/null.v4")
-	}
 
 	columnType := strings.ToLower(column.Type)
 	switch columnType {
@@ -201,6 +198,10 @@ func NewGoField(column *octopus.Column) *GoField {
 		fieldType = "interface{}"
 	}
 
+	if strings.HasPrefix(fieldType, "null.") {
+		importSet.Add("gopkg.in/guregu/null.v4")
+	}
+
 	fieldName, ok := util.ToUpperCamel(column.Name)
 	overrideName := !ok
 
-- 
2.43.0


From eb31a15b89fc42b62ba2209f687cf0559d176fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 48/81] fix: the useUTC option of generate sqlalchemy is a flag

---
 format/sqlalchemy/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/cli.go b/format/sqlalchemy/cli.go
index db5ddac..793c188 100644
--- a/format/sqlalchemy/cli.go
+++ b/format/sqlalchemy/cli.go
@@ -75,7 +75,7 @@ var CliFlags = []cli.Flag{
 		Usage:   "set unique constraint name suffix",
 		EnvVars: []string{"OCTOPUS_UNIQUE_NAME_SUFFIX"},
 	},
-	&cli.StringFlag{
+	&cli.BoolFlag{
 		Name:    FlagUseUTC,
 		Aliases: []string{"t"},
 		Usage:   "use UTC for audit column default value",
-- 
2.43.0


From 730505ed4f68aaa938f04e79deaa2f220e8e96e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 49/81] fix: every sqlalchemy file imports Column

---
 format/sqlalchemy/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 109da63..4a00b89 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -192,6 +192,7 @@ func (c *Generator) Generate(outputPath string) error {
 			// reset slice
 			contents = make([]string, 0)
 			saImportSet.Clear()
+			saImportSet.Add("Column")
 			importSet.Clear()
 		}
 	}
-- 
2.43.0


From 96300827c71c5f88854bacbff0e8e3f6b9046254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 50/81] fix: every sqlalchemy file defines the TZDateTime type
 it uses

---
 format/sqlalchemy/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 4a00b89..2df3851 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -181,6 +181,9 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = append(contents, classLines...)
 		} else {
 			contents = append(contents, c.getHeaderLines(importSet.Slice(), saImportSet.Slice())...)
+			if useTZDateTime {
+				contents = append(contents, c.getTZDateTimeLines()...)
+			}
 			contents = append(contents, classLines...)
 			contents = append(contents, "")
 
@@ -194,6 +197,7 @@ func (c *Generator) Generate(outputPath string) error {
 			saImportSet.Clear()
 			saImportSet.Add("Column")
 			importSet.Clear()
+			useTZDateTime = false
 		}
 	}
 
-- 
2.43.0


From 9285d3bf7c8f130aaa0bb50f4b3ebea9b8b3778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 51/81] fix: sqlalchemy columns of unmapped types are valid
 python

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 2df3851..d3cab9b 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -149,7 +149,7 @@ func (c *Generator) Generate(outputPath string) error {
 					}
 				}
 				importSet.Add("from datetime import datetime")
-			} else {
+			} else if field.Type != "" {
 				attributes = append(attributes, field.Type)
 			}
 			// PK
-- 
2.43.0


From 798fb2ebc408c542fd58917a55387f8105cf2194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 52/81] fix: sqlalchemy unique constraints name columns, not
 attributes

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index d3cab9b..7dd8a59 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -86,7 +86,7 @@ func (c *Generator) Generate(outputPath string) error {
 		uniqueCstName := table.Name + uniqueNameSuffix
 		var uniqueFieldNames []string
 		for _, field := range class.UniqueFields {
-			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "'"))
+			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "'"))
 		}
 
 		// class
-- 
2.43.0


From aa6893856c99854b217908952b1e54475705e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 53/81] fix: kotlin properties without a default value have no
 initialiser

---
 format/jpa/kotlin-gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 4c2bcc2..3e400be 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -175,9 +175,9 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}} = {{.DefaultValue}},
+        override var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}},
 		{{- else}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.Fields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
         var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
@@ -192,7 +192,7 @@ data class {{.Class.Name}}(
 {{- if ne .IdClassName ""}}
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
-- 
2.43.0


From 61067deaa8b1a0da0bfbd5386a549c3150cf038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 54/81] fix: generate kt skips repositories of tables without
 primary key

---
 format/jpa/kotlin-gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 3e400be..b8b60b8 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -341,6 +341,10 @@ func (c *KtGenerator) generateRepositories(outputPath string) error {
 	}
 
 	for _, class := range classes {
+		// an entity without primary key has no id type
+		if len(class.PKFields) == 0 {
+			continue
+		}
 		buf := new(bytes.Buffer)
 		if err := c.generateRepository(buf, class, outputPackage, reposPackage); err != nil {
 			return err
-- 
2.43.0


From b0a0be45aab8b1ccadfb1de945186319e8421fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 55/81] fix: kotlin VRelation targets may belong to unselected
 groups

---
 format/jpa/kotlin-gen.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index b8b60b8..6b46a32 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -281,10 +281,9 @@ data class {{.IdClassName}}(
 }
 
 func (c *KtGenerator) getClassNameByTableName(tableName string) string {
-	for _, cls := range c.classes {
-		if cls.table.Name == tableName {
-			return cls.Name
-		}
+	// the referenced table may belong to a group that is not generated
+	if table := c.schema.TableByName(tableName); table != nil {
+		return NewKotlinClass(table, c.option).Name
 	}
 	return ""
 }
-- 
2.43.0


From 7ad1e157d0710a3fdbc8ba56369df457a22bf057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 56/81] fix: generate kt without --package omits the package
 declaration

---
 format/jpa/kotlin-gen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 6b46a32..2a2b083 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -149,9 +149,9 @@ func (c *KtGenerator) GenerateEntityClass(
 
 	// template
 	tplText := `{{"" -}}
-package {{.Package}}
+{{if .Package}}package {{.Package}}
 
-{{range .Imports}}import {{.}}
+{{end}}{{range .Imports}}import {{.}}
 {{end}}
 {{range .JavaImports}}import {{.}}
 {{end}}
@@ -377,8 +377,8 @@ func (c *KtGenerator) generateRepository(
 	tplString := `{{"" -}}
 package {{.ReposPackage}}
 
-import {{.EntityPackage}}.*
-import org.springframework.data.jpa.repository.JpaRepository
+{{if .EntityPackage}}import {{.EntityPackage}}.*
+{{end}}import org.springframework.data.jpa.repository.JpaRepository
 import org.springframework.stereotype.Repository
 
 @Repository
-- 
2.43.0


From fd6ba9e313dcd09859c9dd6b1cf93e7ae071acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 57/81] fix: nullable kotlin id fields override the IdEntity
 interface

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 2a2b083..f21b36f 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -180,7 +180,7 @@ data class {{.Class.Name}}(
         var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
-        var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
+        {{if eq . $.IdEntityField}}override {{end}}var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
     {{- end}}
 {{end}}
 {{- if eq .SuperClass ""}}
-- 
2.43.0


From c076716f3aa468a0fa35c7d94c3b3baa969c6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 58/81] fix: generate kt without --package writes to the output
 directory

---
 util/io.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/io.go b/util/io.go
index 6625fff..3a13c24 100644
--- a/util/io.go
+++ b/util/io.go
@@ -10,10 +10,10 @@ import (
 
 // MkdirPackage creates nested package directories.
 func MkdirPackage(basedir, pkgName string) (string, error) {
-	if pkgName == "" {
-		return "", nil
+	dir := basedir
+	if pkgName != "" {
+		dir = path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	}
-	dir := path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	if err := os.MkdirAll(dir, 0777); err != nil {
 		return "", err
 	}
-- 
2.43.0


From 7ca33af9d13664067f2c17b9e6797054678dcfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 59/81] fix: export dbml honours --groups

---
 format/dbml/exporter.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 454524a..65e123b 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -32,7 +32,18 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	var deferredRefs []string
 	definedTables := make(map[string]bool)
 
+	// select tables
+	var tables []*octopus.Table
+	exported := make(map[string]bool)
 	for _, table := range c.schema.Tables {
+		if c.option.TableFilter != nil && !c.option.TableFilter(table) {
+			continue
+		}
+		tables = append(tables, table)
+		exported[table.Name] = true
+	}
+
+	for _, table := range tables {
 		result = append(result, fmt.Sprintf("Table %s {", table.Name))
 
 		for _, column := range table.Columns {
@@ -57,7 +68,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
 			}
-			if ref := column.Ref; ref != nil {
+			if ref := column.Ref; ref != nil && exported[ref.Table] {
 				rel := getRelationshipType(ref)
 
 				if definedTables[ref.Table] {
-- 
2.43.0


From 9a8c88cc1bad720c30d49b4e75e18c6e0526f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 60/81] fix: write dbml default values as functions, numbers,
 booleans or quoted strings

---
 format/dbml/exporter.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 65e123b..71fca45 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -3,7 +3,6 @@ package dbml
 import (
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
-	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"strings"
 )
@@ -62,11 +61,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				params = append(params, "not null")
 			}
 			if column.DefaultValue != "" {
-				defaultValue := column.DefaultValue
-				if util.IsStringType(column.Type) {
-					defaultValue = fmt.Sprintf("'%s'", defaultValue)
-				}
-				params = append(params, fmt.Sprintf("default: %s", defaultValue))
+				params = append(params, fmt.Sprintf("default: %s", getDefaultValue(column)))
 			}
 			if ref := column.Ref; ref != nil && exported[ref.Table] {
 				rel := getRelationshipType(ref)
@@ -111,6 +106,24 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	return []byte(strings.Join(result, "\n")), nil
 }
 
+// getDefaultValue returns default value: a `function`, a number, a boolean or a 'string'
+func getDefaultValue(column *octopus.Column) string {
+	value, isFn := column.GetDefaultValue()
+	if isFn {
+		return fmt.Sprintf("`%s`", value)
+	}
+	if octopus.IsColTypeNumeric(column.Type) || column.Type == octopus.ColTypeBoolean {
+		return value
+	}
+	return quote(value, "'")
+}
+
+// quote returns text in quotation marks
+func quote(text string, mark string) string {
+	replacer := strings.NewReplacer("\\", "\\\\", mark, "\\"+mark, "\n", "\\n")
+	return mark + replacer.Replace(text) + mark
+}
+
 func getRelationshipType(ref *octopus.Reference) string {
 	switch ref.Relationship {
 	case octopus.RefManyToOne:
-- 
2.43.0


From 18c4673bac8a3bbdc3589396e36ea9ca8ad66db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 61/81] fix: escape quotation marks in dbml notes

---
 format/dbml/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 71fca45..3bab7ef 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -77,7 +77,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 			}
 			if column.Description != "" {
-				params = append(params, fmt.Sprintf("note: \"%s\"", column.Description))
+				params = append(params, "note: "+quote(column.Description, "\""))
 			}
 
 			columnType := column.Type
-- 
2.43.0


From be352c75a803a402cc26b03ea1e300a53397c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 62/81] fix: quickdbd function defaults have no fn:: prefix

---
 format/quickdbd/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index 213e9b1..8424a2f 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -55,8 +55,8 @@ func getColumnDef(col *octopus.Column) string {
 	if !col.NotNull {
 		params = append(params, "NULLABLE")
 	}
-	if col.DefaultValue != "" {
-		params = append(params, fmt.Sprintf("default=%s", col.DefaultValue))
+	if defaultValue, _ := col.GetDefaultValue(); defaultValue != "" {
+		params = append(params, fmt.Sprintf("default=%s", defaultValue))
 	}
 	if ref := col.Ref; ref != nil {
 		rel := getRelationshipType(ref)
-- 
2.43.0


From f988808bfade703fff7424e3a94b1e0ed3bf8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 63/81] fix: refuse to read schemas that are not valid

---
 format/octopus/io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/octopus/io.go b/format/octopus/io.go
index 52042dc..26b894b 100644
--- a/format/octopus/io.go
+++ b/format/octopus/io.go
@@ -17,7 +17,9 @@ func LoadSchema(filename string) (*Schema, error) {
 	if schema, err := reader.ToSchema(); err != nil {
 		return nil, err
 	} else {
-		schema.Normalize()
+		if err := schema.Normalize(); err != nil {
+			return nil, err
+		}
 		return schema, nil
 	}
 }
-- 
2.43.0


From 8be0cdba88310871009b23f7ea252e2cb5941b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 64/81] fix: oct init writes db.json by default

---
 format/octopus/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/octopus/cli.go b/format/octopus/cli.go
index 961cf49..4a7f4ca 100644
--- a/format/octopus/cli.go
+++ b/format/octopus/cli.go
@@ -71,6 +71,6 @@ var InitCliFlags = []cli.Flag{
 		Aliases:     []string{"o"},
 		Usage:       "init octopus schema to `FILE`",
 		EnvVars:     []string{"OCTOPUS_OUTPUT"},
-		DefaultText: "db.json",
+		Value:       "db.json",
 	},
 }
-- 
2.43.0


From 30de2c1c41d2f75b286c8fd034a33e3e28a16d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 65/81] fix: sqlalchemy Float columns have no scale argument

---
 format/sqlalchemy/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 7dd8a59..d4c8c1f 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -120,7 +120,8 @@ func (c *Generator) Generate(outputPath string) error {
 				if column.Size > 0 {
 					colAttrs = append(colAttrs, fmt.Sprintf("precision=%d", column.Size))
 				}
-				if column.Scale > 0 {
+				// Float has no scale
+				if column.Scale > 0 && lcColumnType == octopus.ColTypeDecimal {
 					colAttrs = append(colAttrs, fmt.Sprintf("scale=%d", column.Scale))
 				}
 
-- 
2.43.0


From 2a61f3fa721d1b8d2dfb9f8760971839041fd38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 66/81] fix: attach sqlalchemy unique constraints to their
 table

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index d4c8c1f..1e52c8b 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -96,7 +96,7 @@ func (c *Generator) Generate(outputPath string) error {
 		)
 
 		if len(uniqueFieldNames) > 1 {
-			appendLine(indent + fmt.Sprintf("UniqueConstraint(%s, name='%s')", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
+			appendLine(indent + fmt.Sprintf("__table_args__ = (UniqueConstraint(%s, name='%s'),)", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
 			saImportSet.Add("UniqueConstraint")
 		}
 		appendLine("")
-- 
2.43.0


From 6f7d7c9408358f46d592a3f4b90eaf82c5d92a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 67/81] fix: async and await are reserved words in python

---
 util/python.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/python.go b/util/python.go
index d3e50b1..6aab77c 100644
--- a/util/python.go
+++ b/util/python.go
@@ -4,6 +4,8 @@ var pythonReservedWords = [...]string{
 	"and",
 	"as",
 	"assert",
+	"async",
+	"await",
 	"break",
 	"class",
 	"continue",
-- 
2.43.0


From 9236cd5f0be0cb08108d62a3f80e757e44c93adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 68/81] fix: report invalid v1 columns as errors

---
 format/ojson/importer.go |  4 +++-
 format/ojson/table.go    | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c89aeae..b115eaa 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -34,7 +34,9 @@ func (c *Importer) ImportJSON(data []byte) (*octopus.Schema, error) {
 	if err := schema1.FromJson(data); err != nil {
 		return nil, err
 	}
-	schema1.Normalize()
+	if err := schema1.Normalize(); err != nil {
+		return nil, err
+	}
 
 	var tables []*octopus.Table
 	for _, table1 := range schema1.Tables {
diff --git a/format/ojson/table.go b/format/ojson/table.go
index af3bba3..9b3321c 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -2,6 +2,7 @@ package ojson
 
 import (
 	"encoding/json"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
@@ -119,7 +120,9 @@ func (s *Schema) ToFile(filename string) error {
 }
 
 func (s *Schema) ToJson() ([]byte, error) {
-	s.Normalize()
+	if err := s.Normalize(); err != nil {
+		return nil, err
+	}
 	return json.MarshalIndent(s, "", "  ")
 }
 
@@ -136,7 +139,7 @@ func (s *Schema) FromJson(data []byte) error {
 }
 
 // Normalize converts colume types to lowercase
-func (s *Schema) Normalize() {
+func (s *Schema) Normalize() error {
 	sort.Sort(TableSlice(s.Tables))
 
 	for _, table := range s.Tables {
@@ -146,7 +149,7 @@ func (s *Schema) Normalize() {
 
 				// validate
 				if err := column.Validate(true); err != nil {
-					log.Panicf("table: %s, %s", table.Name, err.Error())
+					return fmt.Errorf("table: %s, %w", table.Name, err)
 				}
 			} else {
 				log.Printf("unknown column type: '%s', table: %s, column: %s",
@@ -154,6 +157,7 @@ func (s *Schema) Normalize() {
 			}
 		}
 	}
+	return nil
 }
 
 // normalizeColumnType converts column type to octopus generalized column type
-- 
2.43.0


From 5732c949cca02d80efcd8d0336ffb259b367dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 69/81] fix: report dangling StarUML column references

---
 format/staruml/importer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 680c456..310fe04 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -1,6 +1,7 @@
 package staruml
 
 import (
+	"fmt"
 	"encoding/json"
 	"errors"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
@@ -83,7 +84,15 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 
 			if erdColumn.ReferenceTo != nil {
 				targetColumn := c.findById(erdColumn.ReferenceTo.Ref)
+				if targetColumn == nil || targetColumn.Parent == nil {
+					return nil, fmt.Errorf("column not found: '%s', referenced by %s.%s",
+						erdColumn.ReferenceTo.Ref, erdEntity.Name, erdColumn.Name)
+				}
 				targetTable := c.findById(targetColumn.Parent.Ref)
+				if targetTable == nil {
+					return nil, fmt.Errorf("table not found: '%s', referenced by %s.%s",
+						targetColumn.Parent.Ref, erdEntity.Name, erdColumn.Name)
+				}
 				column.Ref = &octopus.Reference{
 					Table:  targetTable.Name,
 					Column: targetColumn.Name,
-- 
2.43.0


From 7d40ae7f9b375f2c5a3cbf5925ecd07547cb028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 70/81] fix: diff liquibase drops columns after adding new ones

---
 format/liquibase/diff.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index d0ff3b2..bc3e0f9 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -259,13 +259,6 @@ func (c *Diff) diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	// removed columns
-	for _, columnName := range removedColumnNameSet.Slice() {
-		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		changeSet.Append("dropColumn", newDropColumn(table, columnName))
-		changeSets = append(changeSets, changeSet)
-	}
-
 	// renamed columns
 	for _, newColumn := range addedColumns {
 		oldColumn, ok := renamedColumnMap[newColumn]
@@ -303,6 +296,13 @@ func (c *Diff) diffTable(
 		}
 	}
 
+	// removed columns: a table cannot lose its last column, so they go after the new ones have come
+	for _, columnName := range removedColumnNameSet.Slice() {
+		changeSet := newLqChangeSet(id.bumpMinor(), author)
+		changeSet.Append("dropColumn", newDropColumn(table, columnName))
+		changeSets = append(changeSets, changeSet)
+	}
+
 	// add primary key
 	if pkChanged && pkSet.Size() > 0 {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-- 
2.43.0


From 2a962543253af3883297028aef820755bb468130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 71/81] fix: diff liquibase restates default values whose type
 changes

---
 format/liquibase/diff.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index bc3e0f9..a5f7fa9 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -7,6 +7,7 @@ import (
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
 	"log"
+	"reflect"
 )
 
 type DiffOption struct {
@@ -374,7 +375,7 @@ func (c *Diff) diffColumn(
 		}
 	}
 
-	if column.DefaultValue != oldColumn.DefaultValue {
+	if !isSameDefaultValue(column, oldColumn) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		if column.DefaultValue == "" {
 			changeSet.Append("dropDefaultValue", newDropDefaultValue(table, column))
@@ -390,3 +391,20 @@ func (c *Diff) diffColumn(
 
 	return changeSets, nil
 }
+
+// isSameDefaultValue returns whether both columns have the same default value in the database.
+// the same text is another value if column type is different.
+func isSameDefaultValue(column *octopus.Column, oldColumn *octopus.Column) bool {
+	if column.DefaultValue == "" || oldColumn.DefaultValue == "" {
+		return column.DefaultValue == oldColumn.DefaultValue
+	}
+	value, err := newLqDefaultValue(column)
+	if err != nil {
+		return false
+	}
+	oldValue, err := newLqDefaultValue(oldColumn)
+	if err != nil {
+		return false
+	}
+	return reflect.DeepEqual(value, oldValue)
+}
-- 
2.43.0


From 03a1e402c9ead336cad5cf758c15be2d38b0d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:57 +0000
Subject: [PATCH 72/81] fix: liquibase default values of decimal columns keep
 digits a float64 cannot hold

---
 format/liquibase/generator.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index c9766dc..833dedb 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -7,6 +7,7 @@ import (
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
 	"log"
+	"math/big"
 	"strconv"
 	"strings"
 )
@@ -412,6 +413,16 @@ type LqDefaultValue struct {
 	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
 }
 
+// isExactFloat returns false if formatting num yields another number than the decimal text it was parsed from.
+func isExactFloat(num float64, text string) bool {
+	want, ok := new(big.Rat).SetString(text)
+	if !ok {
+		return true
+	}
+	got, ok := new(big.Rat).SetString(strconv.FormatFloat(num, 'g', -1, 64))
+	return !ok || want.Cmp(got) == 0
+}
+
 func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	result := LqDefaultValue{}
 
@@ -434,8 +445,11 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 		} else {
 			if num, err := strconv.ParseFloat(column.DefaultValue, 64); err != nil {
 				return nil, err
-			} else {
+			} else if isExactFloat(num, column.DefaultValue) {
 				result.DefaultValueNumeric = &num
+			} else {
+				// a float64 would change the value: keep its decimal digits
+				result.DefaultValueNumeric = column.DefaultValue
 			}
 		}
 	} else if util.IsDateType(column.Type) {
-- 
2.43.0


From 6005c9222dead666b08f07191ec9ef95e0b18173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:43 +0000
Subject: [PATCH 73/81] fix: generate kt escapes Kotlin keywords used as
 property names

---
 format/jpa/kotlin-gen.go |  8 ++++----
 format/jpa/kotlin.go     | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index f21b36f..fa360ed 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -175,12 +175,12 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}},
+        override var {{.Identifier}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}},
 		{{- else}}
-        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
+        var {{.Identifier}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
-        {{if eq . $.IdEntityField}}override {{end}}var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
+        {{if eq . $.IdEntityField}}override {{end}}var {{.Identifier}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
     {{- end}}
 {{end}}
 {{- if eq .SuperClass ""}}
@@ -192,7 +192,7 @@ data class {{.Class.Name}}(
 {{- if ne .IdClassName ""}}
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{.Identifier}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
diff --git a/format/jpa/kotlin.go b/format/jpa/kotlin.go
index 0558cb6..a453188 100644
--- a/format/jpa/kotlin.go
+++ b/format/jpa/kotlin.go
@@ -67,6 +67,21 @@ func NewKotlinClass(
 	}
 }
 
+// kotlinKeywords are the names that Kotlin accepts as identifiers only in backticks.
+var kotlinKeywords = util.NewStringSet(
+	"as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in", "interface", "is", "null",
+	"object", "package", "return", "super", "this", "throw", "true", "try", "typealias", "typeof", "val", "var",
+	"when", "while",
+)
+
+// Identifier returns the name of the property as it is written in Kotlin sources.
+func (f *KotlinField) Identifier() string {
+	if kotlinKeywords.Contains(f.Name) {
+		return "`" + f.Name + "`"
+	}
+	return f.Name
+}
+
 func NewKotlinField(column *octopus.Column) *KotlinField {
 	var fieldType string
 	var defaultValue string
-- 
2.43.0


From 5630efbef2d18ce54bccb0d1aa5d6b7daedb7e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:35 +0000
Subject: [PATCH 74/81] fix: export quickdbd keeps texts with line breaks on
 one line

---
 format/quickdbd/exporter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index 8424a2f..acc10f9 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -31,9 +31,14 @@ func (c *Exporter) Export(wr io.Writer) error {
 	return err
 }
 
+// oneLine replaces line breaks: QuickDBD reads every line as a table or a column.
+func oneLine(s string) string {
+	return strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ").Replace(s)
+}
+
 func getTableDef(table *octopus.Table) string {
 	if table.Description != "" {
-		return fmt.Sprintf("%s # %s", table.Name, table.Description)
+		return fmt.Sprintf("%s # %s", table.Name, oneLine(table.Description))
 	} else {
 		return table.Name
 	}
@@ -56,14 +61,14 @@ func getColumnDef(col *octopus.Column) string {
 		params = append(params, "NULLABLE")
 	}
 	if defaultValue, _ := col.GetDefaultValue(); defaultValue != "" {
-		params = append(params, fmt.Sprintf("default=%s", defaultValue))
+		params = append(params, fmt.Sprintf("default=%s", oneLine(defaultValue)))
 	}
 	if ref := col.Ref; ref != nil {
 		rel := getRelationshipType(ref)
 		params = append(params, fmt.Sprintf("FK %s %s.%s", rel, ref.Table, ref.Column))
 	}
 	if col.Description != "" {
-		params = append(params, fmt.Sprintf("# %s", col.Description))
+		params = append(params, fmt.Sprintf("# %s", oneLine(col.Description)))
 	}
 
 	return fmt.Sprintf("%s %s", col.Name, strings.Join(params, " "))
-- 
2.43.0


From 713fffab1aaf53b2974eafc7ff154bc517e07f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:33 +0000
Subject: [PATCH 75/81] fix: export mysql leaves indexes without a name unnamed

---
 format/mysql/exporter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 88732a5..e760861 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -101,8 +101,13 @@ func (c *Exporter) exportTable(
 	}
 
 	for _, index := range table.Indices {
-		definitions = append(definitions, fmt.Sprintf("INDEX %s (%s)",
-			c.quote(index.Name), util.QuoteAndJoin(index.Columns, "`", ", ")))
+		indexColumns := util.QuoteAndJoin(index.Columns, "`", ", ")
+		if index.Name == "" {
+			// an empty identifier is not valid: let MySQL choose the name
+			definitions = append(definitions, fmt.Sprintf("INDEX (%s)", indexColumns))
+			continue
+		}
+		definitions = append(definitions, fmt.Sprintf("INDEX %s (%s)", c.quote(index.Name), indexColumns))
 	}
 
 	// append ',' except last
-- 
2.43.0


From 49852bebc929ee77d94e813bf3354b8e372d2f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:50 +0000
Subject: [PATCH 76/81] fix: import mysql tells binary columns by their
 character set

---
 format/mysql/importer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index fdeae67..338a910 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -352,7 +352,8 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 			return octopus.ColTypeBlob16, 0, 0
 		}
 	case mysql.TypeString:
-		if colDef.Tp.Flag == mysql.BinaryFlag {
+		// the flag alone is also set by the BINARY attribute, which selects a binary collation
+		if colDef.Tp.Charset == charset.CharsetBin {
 			return octopus.ColTypeBinary, size, 0
 		}
 		return octopus.ColTypeChar, size, 0
-- 
2.43.0


From 55894b77175ee0e1908c213df6f58505348d4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:53 +0000
Subject: [PATCH 77/81] fix: import mysql reads hexadecimal defaults of string
 columns as texts

---
 format/mysql/importer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 338a910..f0f215a 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/pingcap/parser/mysql"
 	"github.com/pingcap/parser/opcode"
 	"github.com/pingcap/parser/test_driver"
+	"github.com/pingcap/parser/types"
 	"io"
 	"io/ioutil"
 	"math/big"
@@ -181,7 +182,7 @@ func (x *TableX) column(
 		case ast.ColumnOptionDefaultValue:
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
-				column.SetDefaultValue(x.literalValue(colOption.Expr.(ast.ValueExpr)))
+				column.SetDefaultValue(x.defaultValue(colDef, colOption.Expr.(ast.ValueExpr)))
 			case *ast.UnaryOperationExpr:
 				if value, ok := x.signedValue(colOption.Expr.(*ast.UnaryOperationExpr)); ok {
 					column.SetDefaultValue(value)
@@ -228,6 +229,15 @@ func (x *TableX) column(
 	return &column
 }
 
+// defaultValue returns the literal default value of a column.
+// hexadecimal and bit literals are texts in string columns, and numbers in other columns.
+func (x *TableX) defaultValue(colDef *ast.ColumnDef, expr ast.ValueExpr) interface{} {
+	if literal, ok := expr.GetValue().(test_driver.BinaryLiteral); ok && types.IsTypeChar(colDef.Tp.Tp) {
+		return string(literal)
+	}
+	return x.literalValue(expr)
+}
+
 // literalValue returns the value of a literal. bit literals are converted to decimal numbers.
 func (x *TableX) literalValue(expr ast.ValueExpr) interface{} {
 	value := expr.GetValue()
-- 
2.43.0


From f9edc67f428151fa26a1d5b0875f246522430e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:42 +0000
Subject: [PATCH 78/81] fix: quickdbd and plantuml diagrams have no links to
 tables that are not in the schema

---
 format/plantuml/generator.go | 2 +-
 format/quickdbd/exporter.go  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/plantuml/generator.go b/format/plantuml/generator.go
index 290acb6..49b79de 100644
--- a/format/plantuml/generator.go
+++ b/format/plantuml/generator.go
@@ -32,7 +32,7 @@ func (c *Generator) Generate(wr io.Writer) error {
 			result = append(result, fmt.Sprintf("    %s", getColumnDef(column)))
 
 			// Reference
-			if ref := column.Ref; ref != nil {
+			if ref := column.Ref; ref != nil && c.schema.TableByName(ref.Table) != nil {
 				relationship := getRelationshipType(ref)
 				refs = append(refs, fmt.Sprintf("%s %s %s", table.Name, relationship, ref.Table))
 			}
diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index acc10f9..eae7069 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -22,7 +22,7 @@ func (c *Exporter) Export(wr io.Writer) error {
 		result = append(result, strings.Repeat("-", len(table.Name)))
 
 		for _, column := range table.Columns {
-			result = append(result, getColumnDef(column))
+			result = append(result, getColumnDef(c.schema, column))
 		}
 		result = append(result, "")
 	}
@@ -44,7 +44,7 @@ func getTableDef(table *octopus.Table) string {
 	}
 }
 
-func getColumnDef(col *octopus.Column) string {
+func getColumnDef(schema *octopus.Schema, col *octopus.Column) string {
 	var params []string
 	params = append(params, col.Type)
 
@@ -63,7 +63,7 @@ func getColumnDef(col *octopus.Column) string {
 	if defaultValue, _ := col.GetDefaultValue(); defaultValue != "" {
 		params = append(params, fmt.Sprintf("default=%s", oneLine(defaultValue)))
 	}
-	if ref := col.Ref; ref != nil {
+	if ref := col.Ref; ref != nil && schema.TableByName(ref.Table) != nil {
 		rel := getRelationshipType(ref)
 		params = append(params, fmt.Sprintf("FK %s %s.%s", rel, ref.Table, ref.Column))
 	}
-- 
2.43.0


From 02b097a2f188c4b6c2b3298322121f21e762b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:32 +0000
Subject: [PATCH 79/81] fix: generate kt reports missing relations before it
 writes any file

---
 format/jpa/kotlin-gen.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index fa360ed..e99fc0a 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -288,7 +288,27 @@ func (c *KtGenerator) getClassNameByTableName(tableName string) string {
 	return ""
 }
 
+// checkRelations returns an error if a generated class has a relation to a table that does not exist.
+func (c *KtGenerator) checkRelations() error {
+	if c.option.Relation != "VRelation" {
+		return nil
+	}
+	for _, class := range c.classes {
+		for _, field := range class.Fields {
+			if ref := field.Column.Ref; ref != nil && c.getClassNameByTableName(ref.Table) == "" {
+				return fmt.Errorf("relation not found. %s::%s -> %s", class.Name, field.Name, ref.Table)
+			}
+		}
+	}
+	return nil
+}
+
 func (c *KtGenerator) Generate(outputPath string) error {
+	// no file is written if one of them cannot be generated
+	if err := c.checkRelations(); err != nil {
+		return err
+	}
+
 	if err := c.generateEntities(outputPath); err != nil {
 		return err
 	}
-- 
2.43.0


From 16f23509b23554126f6d6145bda2cc07deaf6b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:34 +0000
Subject: [PATCH 80/81] fix: import mysql selects the TEXT or BLOB type that
 the declared length needs

---
 format/mysql/importer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index f0f215a..a8cc4db 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -14,6 +14,7 @@ import (
 	"github.com/pingcap/parser/types"
 	"io"
 	"io/ioutil"
+	"math"
 	"math/big"
 	"strings"
 )
@@ -356,7 +357,15 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 			return octopus.ColTypeBlob32, 0, 0
 		}
 	case mysql.TypeBlob:
-		if strings.Contains(strings.ToLower(colDef.Tp.String()), "text") {
+		// MySQL selects a larger type if the declared length does not fit
+		isText := strings.Contains(strings.ToLower(colDef.Tp.String()), "text")
+		if colDef.Tp.Flen > math.MaxUint16 {
+			if colDef.Tp.Flen >= 1<<24 {
+				return util.IfThenElseString(isText, octopus.ColTypeText32, octopus.ColTypeBlob32), 0, 0
+			}
+			return util.IfThenElseString(isText, octopus.ColTypeText24, octopus.ColTypeBlob24), 0, 0
+		}
+		if isText {
 			return octopus.ColTypeText16, 0, 0
 		} else {
 			return octopus.ColTypeBlob16, 0, 0
-- 
2.43.0


From 66c301fab18c596902ea444dd2678e1189a215e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:49 +0000
Subject: [PATCH 81/81] fix: a prefix or annotation map with an entry that
 names no group is reported instead of a panic

---
 format/common/prefix.go  | 18 +++++++++++++++++-
 format/gorm/cli.go       |  3 +++
 format/jpa/cli.go        |  5 +++++
 format/protobuf/cli.go   |  3 +++
 format/sqlalchemy/cli.go |  3 +++
 5 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/format/common/prefix.go b/format/common/prefix.go
index ffa9990..8b91578 100644
--- a/format/common/prefix.go
+++ b/format/common/prefix.go
@@ -1,6 +1,22 @@
 package common
 
-import "strings"
+import (
+	"fmt"
+	"strings"
+)
+
+// CheckGroupMap returns an error if the value of an option maps some groups
+// ("group1:value1,group2:value2"), and has an entry that names no group.
+func CheckGroupMap(option, value string) error {
+	if strings.Contains(value, ":") {
+		for _, token := range strings.Split(value, ",") {
+			if !strings.Contains(token, ":") {
+				return fmt.Errorf("invalid %s '%s': '%s' is not 'group:value'", option, value, token)
+			}
+		}
+	}
+	return nil
+}
 
 type PrefixMapper struct {
 	prefix    string
diff --git a/format/gorm/cli.go b/format/gorm/cli.go
index fe30f97..6ebbd06 100644
--- a/format/gorm/cli.go
+++ b/format/gorm/cli.go
@@ -27,6 +27,9 @@ func Action(c *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if err := common.CheckGroupMap(FlagPrefix, c.String(FlagPrefix)); err != nil {
+		return err
+	}
 
 	gen := Generator{
 		schema: schema,
diff --git a/format/jpa/cli.go b/format/jpa/cli.go
index cd94769..f281e2b 100644
--- a/format/jpa/cli.go
+++ b/format/jpa/cli.go
@@ -27,6 +27,11 @@ func KotlinAction(c *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	for _, flag := range []string{FlagAnnotation, FlagPrefix} {
+		if err := common.CheckGroupMap(flag, c.String(flag)); err != nil {
+			return err
+		}
+	}
 
 	gen := NewKtGenerator(schema, &KtOption{
 		AnnoMapper:       common.NewAnnotationMapper(c.String(FlagAnnotation)),
diff --git a/format/protobuf/cli.go b/format/protobuf/cli.go
index 0e3efa7..4429a5e 100644
--- a/format/protobuf/cli.go
+++ b/format/protobuf/cli.go
@@ -26,6 +26,9 @@ func Action(c *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if err := common.CheckGroupMap(FlagPrefix, c.String(FlagPrefix)); err != nil {
+		return err
+	}
 
 	gen := newGenerator(
 		schema,
diff --git a/format/sqlalchemy/cli.go b/format/sqlalchemy/cli.go
index 793c188..343f5f2 100644
--- a/format/sqlalchemy/cli.go
+++ b/format/sqlalchemy/cli.go
@@ -22,6 +22,9 @@ func Action(c *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if err := common.CheckGroupMap(FlagPrefix, c.String(FlagPrefix)); err != nil {
+		return err
+	}
 
 	gen := Generator{
 		schema: schema,
-- 
2.43.0

