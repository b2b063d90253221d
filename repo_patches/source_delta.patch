From 175232045d6ccda81a556a303f075f305b029a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 01/38] fix: report a failed commit instead of ending
 successfully

---
 adapter/database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index 3cd6755..bb2e6ec 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -74,6 +74,5 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 			return err
 		}
 	}
-	transaction.Commit()
-	return nil
+	return transaction.Commit()
 }
-- 
2.43.0


From a5753e1c2a636163832f890192d236814bce9809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 02/38] fix: return the error of a failed catalog query instead
 of only printing it

---
 adapter/mssql/mssql.go       | 2 +-
 adapter/postgres/postgres.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a84e86a..a78c2b0 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -206,7 +206,7 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f9d2a35..f5f2470 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -225,7 +225,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -273,7 +273,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
-- 
2.43.0


From abf2e9c8d05385a44fe61a55bd275310cc021213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 03/38] fix: report errors that end a result set early

---
 adapter/mssql/mssql.go       | 21 +++++++++++++++++++++
 adapter/mysql/mysql.go       |  9 +++++++++
 adapter/postgres/postgres.go | 21 +++++++++++++++++++++
 adapter/sqlite3/sqlite3.go   |  6 ++++++
 4 files changed, 57 insertions(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a78c2b0..ba56a85 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -47,6 +47,9 @@ func (d *MssqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -245,6 +248,9 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -308,6 +314,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	rows.Close()
 
@@ -345,6 +354,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 			indexDefMap[indexName].columns = append(indexDefMap[indexName].columns, columnDefinition)
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	indexDefs := make([]*indexDef, 0)
 	for _, definition := range indexDefMap {
@@ -388,6 +400,9 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return defs, nil
 }
@@ -436,6 +451,9 @@ INNER JOIN sys.sql_modules
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -460,6 +478,9 @@ INNER JOIN sys.all_sql_modules s ON s.object_id = tr.object_id`
 		}
 		triggers = append(triggers, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return triggers, nil
 }
diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 7f5709d..21fe4fc 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -41,6 +41,9 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, table)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -75,6 +78,9 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -93,6 +99,9 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f5f2470..4d77362 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -52,6 +52,9 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -89,6 +92,9 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			),
 		)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -265,6 +271,9 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -290,6 +299,9 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 		}
 		indexes = append(indexes, indexdef)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return indexes, nil
 }
 
@@ -318,6 +330,9 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		columnNames = append(columnNames, columnName)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return columnNames, nil
 }
 
@@ -359,6 +374,9 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		)
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
@@ -400,6 +418,9 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index b33094a..12c6d7c 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -41,6 +41,9 @@ func (d *Sqlite3Database) TableNames() ([]string, error) {
 		}
 		tables = append(tables, name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -67,6 +70,9 @@ func (d *Sqlite3Database) Views() ([]string, error) {
 		}
 		ddls = append(ddls, sql)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return ddls, nil
 }
-- 
2.43.0


From ab213b9ca619890509be4327a2d6b8089122bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 04/38] fix: close the index rows of SQL Server on every path

---
 adapter/mssql/mssql.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index ba56a85..3f87a72 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -291,6 +291,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	indexDefMap := make(map[string]*indexDef)
 	var indexName, typeDesc, fillfactor string
-- 
2.43.0


From 144ee53d318d3f498ff01c8c12bab203e5bd7614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 05/38] fix: dump the indexes of SQL Server in the order of the
 catalog

---
 adapter/mssql/mssql.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 3f87a72..dff0f6f 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -294,6 +294,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	defer rows.Close()
 
 	indexDefMap := make(map[string]*indexDef)
+	indexDefs := make([]*indexDef, 0)
 	var indexName, typeDesc, fillfactor string
 	var isPrimary, isUnique, padIndex, ignoreDupKey, noRecompute, incremental, rowLocks, pageLocks bool
 	for rows.Next() {
@@ -314,6 +315,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
+		indexDefs = append(indexDefs, definition)
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -359,10 +361,6 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		return nil, err
 	}
 
-	indexDefs := make([]*indexDef, 0)
-	for _, definition := range indexDefMap {
-		indexDefs = append(indexDefs, definition)
-	}
 	return indexDefs, nil
 }
 
-- 
2.43.0


From 0c5fb0615e01f7c1a02d957258eda1a2363d4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 06/38] fix: separate the secondary indexes in the dump of SQL
 Server

---
 adapter/mssql/mssql.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index dff0f6f..68c7b96 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -157,6 +157,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			}
 			fmt.Fprint(&queryBuilder, " )")
 		}
+		fmt.Fprint(&queryBuilder, ";\n")
 	}
 	return strings.TrimSuffix(queryBuilder.String(), ";\n")
 }
-- 
2.43.0


From 9d9430f36966b3cd42a83b3b6c039c234ead984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:42 +0000
Subject: [PATCH 07/38] fix: keep the whole charset name when deriving the
 collation of BINARY columns

---
 schema/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index d5eac91..215dbb8 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -469,7 +469,7 @@ func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) stri
 func detectCharset(table sqlparser.TableSpec) string {
 	for _, option := range strings.Split(table.Options, " ") {
 		if strings.HasPrefix(option, "charset=") {
-			return strings.TrimLeft(option, "charset=")
+			return strings.TrimPrefix(option, "charset=")
 		}
 	}
 	// TODO: consider returning err when charset is missing
-- 
2.43.0


From 20690b876b33142767338d7f9aceea6b3e8ee5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 08/38] fix: escape user, password and database in the postgres
 DSN and pass a socket directory as host option

---
 adapter/postgres/postgres.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 4d77362..f84435d 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -433,27 +433,29 @@ func (d *PostgresDatabase) Close() error {
 }
 
 func postgresBuildDSN(config adapter.Config) string {
-	user := config.User
-	password := config.Password
-	database := config.DbName
-	host := ""
+	query := url.Values{}
+	dsn := &url.URL{
+		Scheme: "postgres",
+		User:   url.UserPassword(config.User, config.Password),
+		Path:   "/" + config.DbName,
+	}
 	if config.Socket == "" {
-		host = fmt.Sprintf("%s:%d", config.Host, config.Port)
+		dsn.Host = fmt.Sprintf("%s:%d", config.Host, config.Port)
 	} else {
-		host = config.Socket
+		query.Set("host", config.Socket) // A socket directory can't be the host part of a URL
+		query.Set("port", fmt.Sprint(config.Port))
 	}
 
-	var options []string
 	if sslmode, ok := os.LookupEnv("PGSSLMODE"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslmode=%s", sslmode)) // TODO: uri escape
+		query.Set("sslmode", sslmode)
 	}
 
 	if sslrootcert, ok := os.LookupEnv("PGSSLROOTCERT"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslrootcert=%s", sslrootcert))
+		query.Set("sslrootcert", sslrootcert)
 	}
 
-	// `QueryEscape` instead of `PathEscape` so that colon can be escaped.
-	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
+	dsn.RawQuery = query.Encode()
+	return dsn.String()
 }
 
 func splitTableName(table string) (string, string) {
-- 
2.43.0


From 4e3e809fe156f6b886a0723a34b0165e2ab3b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 09/38] fix: double the closing quote inside quoted identifiers

---
 schema/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2f4421f..155902a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1046,11 +1046,11 @@ func (g *Generator) escapeTableName(name string) string {
 func (g *Generator) escapeSQLName(name string) string {
 	switch g.mode {
 	case GeneratorModePostgres:
-		return fmt.Sprintf("\"%s\"", name)
+		return fmt.Sprintf("\"%s\"", strings.Replace(name, "\"", "\"\"", -1))
 	case GeneratorModeMssql:
-		return fmt.Sprintf("[%s]", name)
+		return fmt.Sprintf("[%s]", strings.Replace(name, "]", "]]", -1))
 	default:
-		return fmt.Sprintf("`%s`", name)
+		return fmt.Sprintf("`%s`", strings.Replace(name, "`", "``", -1))
 	}
 }
 
-- 
2.43.0


From bc667cada466d21f67d2539361d2407a9b9471a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 10/38] fix: keep default values as they were written

---
 schema/generator.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 155902a..bd30544 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -336,7 +336,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
 					} else {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -405,7 +405,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 					if desiredColumn.defaultDef != nil {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -805,7 +805,7 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.defaultDef != nil && column.defaultDef.value != nil {
-		def, err := generateDefaultDefinition(*column.defaultDef.value)
+		def, err := g.generateDefaultDefinition(*column.defaultDef.value)
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
@@ -1607,20 +1607,18 @@ func generateSequenceClause(sequence *Sequence) string {
 	return strings.TrimSpace(ddl)
 }
 
-func generateDefaultDefinition(defaultVal Value) (string, error) {
+func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", defaultVal.strVal), nil
-	case ValueTypeInt:
-		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
-	case ValueTypeFloat:
-		return fmt.Sprintf("DEFAULT %f", defaultVal.floatVal), nil
-	case ValueTypeBit:
-		if defaultVal.bitVal {
-			return "DEFAULT b'1'", nil
-		} else {
-			return "DEFAULT b'0'", nil
+		strVal := strings.Replace(defaultVal.strVal, "'", "''", -1)
+		if g.mode == GeneratorModeMysql {
+			strVal = strings.Replace(strVal, "\\", "\\\\", -1)
 		}
+		return fmt.Sprintf("DEFAULT '%s'", strVal), nil
+	case ValueTypeInt, ValueTypeFloat:
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
+	case ValueTypeBit:
+		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
-- 
2.43.0


From c981de9ac48feb699b0161fc71d8b07420db69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 11/38] fix: keep DEFAULT now() and getdate() function calls

---
 sqlparser/parser.go | 4 ++--
 sqlparser/parser.y  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index afa3a4d..876242e 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4285,7 +4285,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1066
 		{
-			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
+			yyVAL.optVal = NewValArg([]byte(string(yyDollar[1].bytes) + "()"))
 		}
 	case 151:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -4430,7 +4430,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1172
 		{
-			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
+			yyVAL.optVal = NewValArg([]byte(string(yyDollar[1].bytes) + "()"))
 		}
 	case 173:
 		yyDollar = yyS[yypt-0 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index b148377..52ac966 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1064,7 +1064,7 @@ default_val:
   }
 | NOW openb closeb
   {
-    $$ = NewBitVal($1)
+    $$ = NewValArg([]byte(string($1) + "()"))
   }
 
 identity_behavior:
@@ -1170,7 +1170,7 @@ current_timestamp:
   }
 | GETDATE '(' ')'
   {
-    $$ = NewValArgWithOpt($1, nil)
+    $$ = NewValArg([]byte(string($1) + "()"))
   }
 
 no_inherit_opt:
-- 
2.43.0


From ab0600d02aa9c5e2a69e78f2e99283f404f37276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 12/38] fix: compare column checks by content in MySQL

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index bd30544..24d0f6c 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1259,7 +1259,7 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 		(current.unsigned == desired.unsigned) &&
 		((current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desired.keyOption == ColumnKeyPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
 		(current.timezone == desired.timezone) &&
-		(current.check == desired.check) &&
+		areSameCheckDefinition(current.check, desired.check) &&
 		(desired.charset == "" || current.charset == desired.charset) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
 		(desired.collate == "" || current.collate == desired.collate) && // detect change column only when set explicitly. TODO: can we calculate implicit collate?
 		reflect.DeepEqual(current.onUpdate, desired.onUpdate)
-- 
2.43.0


From b3650f25a91fe87f4697e5667091d7d88c1752bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 13/38] fix: compare the scale of column types

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 24d0f6c..20307e2 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1269,8 +1269,8 @@ func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
 		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+		(current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal) && // same as length
 		current.array == desired.array
-	// TODO: scale
 }
 
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
-- 
2.43.0


From 613fbf4e1206ad29e4c9dd9101dd7a52dacf14f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 14/38] fix: ignore only trailing zeros when comparing default
 numbers

---
 schema/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 20307e2..b798ac8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1317,10 +1317,10 @@ func areSameValue(current, desired *Value) bool {
 	// NOTE: -1 can be changed to '-1' in show create table and valueType is not reliable
 	currentRaw := string(current.raw)
 	desiredRaw := string(desired.raw)
-	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) {
+	if desired.valueType == ValueTypeFloat && strings.HasPrefix(currentRaw, desiredRaw) && strings.Trim(currentRaw[len(desiredRaw):], "0") == "" {
 		// Round "0.00" to "0.0" for comparison with desired.
 		// Ideally we should do this seeing precision in a data type.
-		currentRaw = currentRaw[0:len(desiredRaw)]
+		currentRaw = desiredRaw
 	}
 	return currentRaw == desiredRaw
 }
-- 
2.43.0


From e28c50006ebb9345247e1f00675d1712763b03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 15/38] fix: alter a Postgres column when its time zone changes

---
 schema/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index b798ac8..fa9e2bb 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -296,9 +296,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 			case GeneratorModePostgres:
-				if !g.haveSameDataType(*currentColumn, desiredColumn) {
+				if !g.haveSameDataType(*currentColumn, desiredColumn) || currentColumn.timezone != desiredColumn.timezone {
 					// Change type
 					ddl := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s TYPE %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name), generateDataType(desiredColumn))
+					if desiredColumn.timezone {
+						ddl += " WITH TIME ZONE"
+					}
 					ddls = append(ddls, ddl)
 				}
 
-- 
2.43.0


From a9991169700efccabbeca4795b1727f7e93b628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 16/38] fix: compare every attribute of a policy whose
 expression is only parenthesised

---
 schema/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index fa9e2bb..30ea6d0 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1446,11 +1446,11 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) {
-		return fmt.Sprintf("(%s)", policyA.using) == policyB.using
+	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
+		return false
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) {
-		return fmt.Sprintf("(%s)", policyA.withCheck) == policyB.withCheck
+	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) && fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
+		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
 		return false
-- 
2.43.0


From 4076458dd29612444031be20a3e01b137b8f4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 17/38] fix: write every option of a MySQL index, with its
 method and quoted comment

---
 schema/generator.go | 27 ++++++++++++++++++---------
 schema/parser.go    | 12 ++++++++++--
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 30ea6d0..fdc0e1a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -945,11 +945,16 @@ func (g *Generator) generateIndexOptionDefinition(indexOptions []IndexOption) st
 	if len(indexOptions) > 0 {
 		switch g.mode {
 		case GeneratorModeMysql:
-			indexOption := indexOptions[0]
-			if indexOption.optionName == "parser" {
-				indexOption.optionName = "WITH " + indexOption.optionName
+			for _, indexOption := range indexOptions {
+				optionValue := string(indexOption.value.raw)
+				switch indexOption.optionName {
+				case "parser":
+					indexOption.optionName = "WITH " + indexOption.optionName
+				case "comment":
+					optionValue = g.quoteString(optionValue)
+				}
+				optionDefinition += fmt.Sprintf(" %s %s", indexOption.optionName, optionValue)
 			}
-			optionDefinition = fmt.Sprintf(" %s %s", indexOption.optionName, string(indexOption.value.raw))
 		case GeneratorModeMssql:
 			options := []string{}
 			for _, indexOption := range indexOptions {
@@ -1613,11 +1618,7 @@ func generateSequenceClause(sequence *Sequence) string {
 func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		strVal := strings.Replace(defaultVal.strVal, "'", "''", -1)
-		if g.mode == GeneratorModeMysql {
-			strVal = strings.Replace(strVal, "\\", "\\\\", -1)
-		}
-		return fmt.Sprintf("DEFAULT '%s'", strVal), nil
+		return "DEFAULT " + g.quoteString(defaultVal.strVal), nil
 	case ValueTypeInt, ValueTypeFloat:
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
@@ -1628,3 +1629,11 @@ func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error)
 		return "", fmt.Errorf("unsupported default value type (valueType: '%d')", defaultVal.valueType)
 	}
 }
+
+func (g *Generator) quoteString(str string) string {
+	str = strings.Replace(str, "'", "''", -1)
+	if g.mode == GeneratorModeMysql {
+		str = strings.Replace(str, "\\", "\\\\", -1)
+	}
+	return "'" + str + "'"
+}
diff --git a/schema/parser.go b/schema/parser.go
index 215dbb8..809a6e9 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -76,6 +76,14 @@ func parseValue(val *sqlparser.SQLVal) *Value {
 	return &ret
 }
 
+// `USING BTREE` has no value in the syntax tree
+func parseIndexOptionValue(option *sqlparser.IndexOption) *Value {
+	if option.Value == nil && option.Using != "" {
+		return &Value{valueType: ValueTypeValArg, raw: []byte(strings.ToUpper(option.Using))}
+	}
+	return parseValue(option.Value)
+}
+
 // Assume an integer length. Maybe useful only for index lengths.
 // TODO: Change IndexColumn.Length in parser.y to integer in the first place
 func parseLength(val *sqlparser.SQLVal) (*int, error) {
@@ -153,7 +161,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 				indexOptions,
 				IndexOption{
 					optionName: option.Name,
-					value:      parseValue(option.Value),
+					value:      parseIndexOptionValue(option),
 				},
 			)
 		}
@@ -251,7 +259,7 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 			indexOptions,
 			IndexOption{
 				optionName: option.Name,
-				value:      parseValue(option.Value),
+				value:      parseIndexOptionValue(option),
 			},
 		)
 	}
-- 
2.43.0


From e2a5f7cd84e0cb660e5dcb861082fbc91d900509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 18/38] fix: replace a primary key of SQL Server with its
 constraint dropped, and keep one that is still desired

---
 schema/generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index fdc0e1a..dbe8484 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -452,6 +452,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			case GeneratorModePostgres:
 				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+			case GeneratorModeMssql:
+				// A primary key that is not replaced is dropped with the obsoleted indexes.
+				if desiredPrimaryKey != nil {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentPrimaryKey.name)))
+				}
 			default:
 			}
 		}
@@ -729,7 +734,8 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 		if primaryKeyColumn == nil {
 			// If nil, it will be `DROP COLUMN`-ed and we can usually ignore it.
 			// However, it seems like you need to explicitly drop it first for MSSQL.
-			if g.mode == GeneratorModeMssql && (primaryKeyColumn == nil || primaryKeyColumn.name != currentIndex.columns[0].column) {
+			// A primary key that is still expected to exist, maybe under another name, is kept or has been replaced.
+			if g.mode == GeneratorModeMssql && desiredTable.PrimaryKey() == nil {
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentIndex.name)))
 			}
 		} else if primaryKeyColumn.name != currentIndex.columns[0].column { // TODO: check length of currentIndex.columns
-- 
2.43.0


From 9888b335368f02b1db4b4ea854d423b9fb77c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 19/38] fix: drop the check constraint of a SQL Server column
 before the column

---
 schema/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index dbe8484..162e0f5 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -214,13 +214,17 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
 	ddls := []string{}
 
-	// Only MSSQL has column default constraints. They need to be deleted before dropping the column.
+	// Only MSSQL has column default constraints. They need to be deleted before dropping the column, and so do its check constraints.
 	if g.mode == GeneratorModeMssql {
 		for _, column := range currentTable.columns {
 			if column.name == columnName && column.defaultDef != nil && column.defaultDef.constraintName != "" {
 				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(column.defaultDef.constraintName))
 				ddls = append(ddls, ddl)
 			}
+			if column.name == columnName && column.check != nil && column.check.constraintName != "" {
+				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(column.check.constraintName))
+				ddls = append(ddls, ddl)
+			}
 		}
 	}
 
-- 
2.43.0


From c218c79cf0052ddbec8531f6925fb44c5f7200b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 20/38] fix: keep the names of the default and check
 constraints of an added SQL Server column

---
 schema/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 162e0f5..745c3ba 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -822,6 +822,9 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
+		if g.mode == GeneratorModeMssql && column.defaultDef.constraintName != "" {
+			definition += fmt.Sprintf("CONSTRAINT %s ", g.escapeSQLName(column.defaultDef.constraintName))
+		}
 		definition += def + " "
 	}
 
@@ -834,6 +837,9 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.check != nil {
+		if g.mode == GeneratorModeMssql && column.check.constraintName != "" {
+			definition += fmt.Sprintf("CONSTRAINT %s ", g.escapeSQLName(column.check.constraintName))
+		}
 		definition += "CHECK "
 		if column.check.notForReplication {
 			definition += "NOT FOR REPLICATION "
-- 
2.43.0


From 9240c29faadf8186026d77d985d9060d84aa8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 21/38] fix: drop obsolete and changed indexes of SQLite3

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 745c3ba..1071004 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1036,7 +1036,7 @@ func (g *Generator) generateDropIndex(tableName string, indexName string) string
 	switch g.mode {
 	case GeneratorModeMysql:
 		return fmt.Sprintf("ALTER TABLE %s DROP INDEX %s", g.escapeTableName(tableName), g.escapeSQLName(indexName))
-	case GeneratorModePostgres:
+	case GeneratorModePostgres, GeneratorModeSQLite3:
 		return fmt.Sprintf("DROP INDEX %s", g.escapeSQLName(indexName))
 	case GeneratorModeMssql:
 		return fmt.Sprintf("DROP INDEX %s ON %s", g.escapeSQLName(indexName), g.escapeTableName(tableName))
-- 
2.43.0


From ff4545094735e6de661e37e10a114e59860815f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 22/38] fix: do not panic at a special comment with nothing but
 a version

---
 sqlparser/comments.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index a0f7f1b..6dfde4d 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -170,6 +170,10 @@ func ExtractMysqlComment(sql string) (version string, innerSQL string) {
 		digitCount++
 		return !unicode.IsDigit(c) || digitCount == 6
 	})
+	if endOfVersionIndex < 0 {
+		// There is nothing but a version, if anything.
+		endOfVersionIndex = len(sql)
+	}
 	version = sql[0:endOfVersionIndex]
 	innerSQL = strings.TrimFunc(sql[endOfVersionIndex:], unicode.IsSpace)
 
-- 
2.43.0


From 1ccf4d5ecd09e253a1bf1d8b04e10c8ee6f0dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 23/38] fix: refuse a table that is created twice

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 1071004..57c32a1 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -84,6 +84,9 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	for _, ddl := range desiredDDLs {
 		switch desired := ddl.(type) {
 		case *CreateTable:
+			if findTableByName(g.desiredTables, desired.table.name) != nil {
+				return nil, fmt.Errorf("table '%s' is doubly created: '%s'", desired.table.name, desired.statement)
+			}
 			if currentTable := findTableByName(g.currentTables, desired.table.name); currentTable != nil {
 				// Table already exists, guess required DDLs.
 				tableDDLs, err := g.generateDDLsForCreateTable(*currentTable, *desired)
-- 
2.43.0


From 8033088c4a832559e5110369bd266a727ebeb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 24/38] fix: refuse a trigger that is created twice

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 57c32a1..c12db05 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -693,6 +693,9 @@ func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrig
 		}
 	}
 
+	if findTriggerByName(g.desiredTriggers, desiredTrigger.name) != nil {
+		return nil, fmt.Errorf("trigger '%s' is doubly created: '%s'", desiredTrigger.name, desiredTrigger.statement)
+	}
 	g.desiredTriggers = append(g.desiredTriggers, desiredTrigger)
 
 	return ddls, nil
-- 
2.43.0


From 6916cf9561ad25f42534a4c61f71bc98c6ea44bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 25/38] fix: refuse triggers where they are not supported
 instead of ignoring them

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index c12db05..39488ce 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -674,7 +674,7 @@ func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrig
 	case GeneratorModeMysql:
 		triggerDefinition += fmt.Sprintf("TRIGGER %s %s %s ON %s FOR EACH ROW %s", g.escapeSQLName(desiredTrigger.name), desiredTrigger.time, desiredTrigger.event, g.escapeTableName(desiredTrigger.tableName), strings.Join(desiredTrigger.body, " "))
 	default:
-		return ddls, nil
+		return nil, fmt.Errorf("CREATE TRIGGER is not supported for this database: '%s'", desiredTrigger.statement)
 	}
 
 	if currentTrigger == nil {
-- 
2.43.0


From 766c62681bb2959d050f9e1ef829fe3c672a2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 26/38] fix: add and replace foreign keys of ALTER TABLE ONLY
 ... ADD

---
 schema/generator.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 39488ce..18bcd67 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -586,7 +586,20 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeignKey ForeignKey, action string, statement string) ([]string, error) {
 	var ddls []string
 
-	// TODO: Simulate currentTable.foreignKeys too
+	currentTable := findTableByName(g.currentTables, tableName)
+	if currentTable == nil {
+		return nil, fmt.Errorf("%s is performed for inexistent table '%s': '%s'", action, tableName, statement)
+	}
+
+	currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName)
+	if currentForeignKey == nil {
+		// Foreign key not found, add foreign key.
+		ddls = append(ddls, statement)
+	} else if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
+		// Foreign key found, but it's different. Drop and add foreign key.
+		ddls = append(ddls, g.generateDropForeignKey(currentTable.name, currentForeignKey.constraintName)...)
+		ddls = append(ddls, statement)
+	}
 
 	// Examine indexes in desiredTable to delete obsoleted indexes later
 	desiredTable := findTableByName(g.desiredTables, tableName)
@@ -601,6 +614,17 @@ func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeig
 	return ddls, nil
 }
 
+func (g *Generator) generateDropForeignKey(tableName string, constraintName string) []string {
+	switch g.mode {
+	case GeneratorModeMysql:
+		return []string{fmt.Sprintf("ALTER TABLE %s DROP FOREIGN KEY %s", g.escapeTableName(tableName), g.escapeSQLName(constraintName))}
+	case GeneratorModePostgres, GeneratorModeMssql:
+		return []string{fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(tableName), g.escapeSQLName(constraintName))}
+	default:
+		return nil
+	}
+}
+
 func (g *Generator) generateDDLsForCreatePolicy(tableName string, desiredPolicy Policy, action string, statement string) ([]string, error) {
 	var ddls []string
 
-- 
2.43.0


From a3cb3d2113330bf93761967c1f8385a9ac54e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 27/38] fix: psqldef mixes up catalog rows of equally named
 objects in different schemas

The catalog queries joined tables, views and constraints by name only, so that
two schemas with a table, view or constraint of the same name had their
columns, definitions and keys multiplied in the dump.
---
 adapter/postgres/postgres.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f84435d..1482a55 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -66,7 +66,7 @@ var (
 func (d *PostgresDatabase) Views() ([]string, error) {
 	rows, err := d.db.Query(
 		`select table_schema, table_name, definition from information_schema.tables
-		 inner join pg_views on table_name = viewname
+		 inner join pg_views on table_schema = schemaname and table_name = viewname
 		 where table_schema not in ('information_schema', 'pg_catalog')
 		 and (table_schema != 'public' or table_name != 'pg_buffercache')
 		 and table_type = 'VIEW';`,
@@ -225,7 +225,7 @@ FROM pg_attribute f
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
 	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
 	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
-	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname
+	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
 WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
 
 	schema, table := splitTableName(table)
@@ -311,7 +311,7 @@ func (d *PostgresDatabase) getPrimaryKeyColumns(table string) ([]string, error)
 FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
+		ON tc.constraint_schema = kcu.constraint_schema AND tc.constraint_name = kcu.constraint_name AND tc.table_name = kcu.table_name
 WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$2 ORDER BY kcu.ordinal_position`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -348,11 +348,11 @@ func (d *PostgresDatabase) getForeginDefs(table string) ([]string, error) {
 FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
+		ON tc.constraint_schema = kcu.constraint_schema AND tc.constraint_name = kcu.constraint_name AND tc.table_name = kcu.table_name
 	JOIN information_schema.constraint_column_usage AS ccu
-		ON tc.constraint_name = ccu.constraint_name
+		ON tc.constraint_schema = ccu.constraint_schema AND tc.constraint_name = ccu.constraint_name
 	JOIN information_schema.referential_constraints AS rc
-		ON tc.constraint_name = rc.constraint_name
+		ON tc.constraint_schema = rc.constraint_schema AND tc.constraint_name = rc.constraint_name
 WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
-- 
2.43.0


From def37f3e78091ce761f6e38fb7560d99bb8d8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 28/38] fix: psqldef dumps policies of tables outside the
 public schema without the schema

---
 adapter/postgres/postgres.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 1482a55..1f58314 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -387,8 +387,8 @@ var (
 
 func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 	const query = "SELECT policyname, permissive, roles, cmd, qual, with_check FROM pg_policies WHERE schemaname = $1 AND tablename = $2;"
-	schema, table := splitTableName(table)
-	rows, err := d.db.Query(query, schema, table)
+	schema, tableName := splitTableName(table)
+	rows, err := d.db.Query(query, schema, tableName)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0ffab25e4194bad505b4c380f53b735750796c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 29/38] fix: psqldef drops a nextval() default of a column that
 is not dumped as serial

---
 adapter/postgres/postgres.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 1f58314..069e694 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -258,7 +258,10 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		col.IsUnique = isUnique
 		if colDefault != nil && strings.HasPrefix(*colDefault, "nextval(") {
-			col.IsAutoIncrement = true
+			switch dataType {
+			case "smallint", "integer", "bigint":
+				col.IsAutoIncrement = true // dumped as a serial type
+			}
 		}
 		col.Nullable = isNullable == "YES"
 		col.dataType = dataType
-- 
2.43.0


From e2ac127737615e0a644494298afccbe4f74cd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 30/38] fix: mysqldef takes the definition of a view of the
 same name in another database

---
 adapter/mysql/mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 21fe4fc..2ae71d2 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -72,7 +72,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = rows.Scan(&viewName, &viewType); err != nil {
 			return nil, err
 		}
-		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_NAME = '%s';", viewName)
+		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_SCHEMA = DATABASE() and TABLE_NAME = '%s';", viewName)
 		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b6454c15e674618accd9818594b46a5ecc1bfefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 31/38] fix: sqlite3def may dump an index or a trigger in place
 of its table

---
 adapter/sqlite3/sqlite3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index 12c6d7c..15395d0 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -48,7 +48,7 @@ func (d *Sqlite3Database) TableNames() ([]string, error) {
 }
 
 func (d *Sqlite3Database) DumpTableDDL(table string) (string, error) {
-	const query = `select sql from sqlite_master where tbl_name = ?`
+	const query = `select sql from sqlite_master where type = 'table' and tbl_name = ?`
 	var sql string
 	err := d.db.QueryRow(query, table).Scan(&sql)
 	return sql, err
-- 
2.43.0


From 28580b9e19f8f719b9698b409a67b2903b5ce28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 32/38] fix: mssqldef dumps the columns of an index in no
 particular order

---
 adapter/mssql/mssql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 68c7b96..f6f4787 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -331,7 +331,8 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	ic.is_included_column
 FROM sys.indexes ind
 INNER JOIN sys.index_columns ic ON ind.object_id = ic.object_id AND ind.index_id = ic.index_id
-WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE ind.object_id = OBJECT_ID('[%s].[%s]')
+ORDER BY ind.index_id, ic.key_ordinal, ic.index_column_id`, schema, table)
 
 	rows, err = d.db.Query(query)
 	if err != nil {
-- 
2.43.0


From 34b5ce7074ae30e983c114fe066173cf5b84c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 33/38] fix: mssqldef glues the lines of a view definition
 together

A line break between two words was removed without leaving a space, so that
"SELECT id\nFROM users" was dumped as "SELECT idFROM users".
---
 adapter/mssql/mssql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index f6f4787..226ee56 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -447,7 +447,7 @@ INNER JOIN sys.sql_modules
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
+		definition = strings.ReplaceAll(definition, "\n", " ")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
-- 
2.43.0


From 576818ca3ed39f9570acc6a0e42e61aa18cdd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 34/38] fix: mssqldef dumps nchar and nvarchar columns without
 their length

---
 adapter/mssql/mssql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 226ee56..bd049f6 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -78,7 +78,8 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
 		fmt.Fprintf(&queryBuilder, "%s %s", col.Name, col.dataType)
-		if col.dataType == "char" || col.dataType == "varchar" || col.dataType == "binary" || col.dataType == "varbinary" {
+		switch col.dataType {
+		case "char", "varchar", "nchar", "nvarchar", "binary", "varbinary":
 			fmt.Fprintf(&queryBuilder, "(%s)", col.Length)
 		}
 		if !col.Nullable {
@@ -190,7 +191,7 @@ func (d *MssqlDatabase) getColumns(table string) ([]column, error) {
 	query := fmt.Sprintf(`SELECT
 	c.name,
 	[type_name] = tp.name,
-	c.max_length,
+	max_length = CASE WHEN tp.name IN ('nchar', 'nvarchar') AND c.max_length > 0 THEN c.max_length / 2 ELSE c.max_length END,
 	c.is_nullable,
 	c.is_identity,
 	ic.seed_value,
-- 
2.43.0


From fa8b4425a01d92db362fc5c4f7d165bc298a42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:33 +0000
Subject: [PATCH 35/38] fix: psqldef dumps every column of a multi-column
 UNIQUE constraint as UNIQUE

The index behind the constraint is dumped as CREATE UNIQUE INDEX with all of its
columns; the columns themselves are not unique.
---
 adapter/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 069e694..7e380f6 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -223,7 +223,7 @@ FROM pg_attribute f
 	JOIN pg_class c ON c.oid = f.attrelid JOIN pg_type t ON t.oid = f.atttypid
 	LEFT JOIN pg_attrdef d ON d.adrelid = c.oid AND d.adnum = f.attnum
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
-	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
+	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND array_length(p.conkey, 1) = 1 AND p.contype = 'u'
 	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
 	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
 WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
-- 
2.43.0


From 00d687ffae9589254d5be0ea9c25d3ed7dcd7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:32 +0000
Subject: [PATCH 36/38] fix: the password prompt is part of the exported schema

With --password-prompt the prompt went to standard output, in front of the
first statement of --export or --dry-run.
---
 cmd/mssqldef/mssqldef.go | 2 +-
 cmd/mysqldef/mysqldef.go | 2 +-
 cmd/psqldef/psqldef.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/mssqldef/mssqldef.go b/cmd/mssqldef/mssqldef.go
index b99b028..97e1bb0 100644
--- a/cmd/mssqldef/mssqldef.go
+++ b/cmd/mssqldef/mssqldef.go
@@ -74,7 +74,7 @@ func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	}
 
 	if opts.Prompt {
-		fmt.Printf("Enter Password: ")
+		fmt.Fprint(os.Stderr, "Enter Password: ")
 		pass, err := term.ReadPassword(int(syscall.Stdin))
 		if err != nil {
 			log.Fatal(err)
diff --git a/cmd/mysqldef/mysqldef.go b/cmd/mysqldef/mysqldef.go
index 700dc9a..29c45a7 100644
--- a/cmd/mysqldef/mysqldef.go
+++ b/cmd/mysqldef/mysqldef.go
@@ -75,7 +75,7 @@ func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	}
 
 	if opts.Prompt {
-		fmt.Printf("Enter Password: ")
+		fmt.Fprint(os.Stderr, "Enter Password: ")
 		pass, err := term.ReadPassword(int(syscall.Stdin))
 		if err != nil {
 			log.Fatal(err)
diff --git a/cmd/psqldef/psqldef.go b/cmd/psqldef/psqldef.go
index 220153e..f70347a 100644
--- a/cmd/psqldef/psqldef.go
+++ b/cmd/psqldef/psqldef.go
@@ -74,7 +74,7 @@ func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	}
 
 	if opts.Prompt {
-		fmt.Printf("Enter Password: ")
+		fmt.Fprint(os.Stderr, "Enter Password: ")
 		pass, err := term.ReadPassword(int(syscall.Stdin))
 		if err != nil {
 			log.Fatal(err)
-- 
2.43.0


From 73bc639ecf5f60b09582823a79e0fc9f5cda1cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:17 +0000
Subject: [PATCH 37/38] fix: printing a parsed boolean value panicked (Myprintf
 has no verb %t)

---
 sqlparser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 299e0ec..79473b0 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2493,7 +2493,7 @@ func (node *SQLVal) Format(buf *TrackedBuffer) {
 	case ValArg:
 		buf.WriteArg(string(node.Val))
 	case ValBool:
-		buf.Myprintf("%t", node.Val)
+		buf.Myprintf("%s", node.Val)
 	default:
 		panic("unexpected")
 	}
-- 
2.43.0


From 76ee62986407bfcae3ac7027eab0b513461aff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:53 +0000
Subject: [PATCH 38/38] fix: a column made NOT NULL by PRIMARY KEY (column) was
 changed on every run

---
 schema/generator.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 18bcd67..b09782b 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -279,7 +279,8 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				changeOrder := currentPos > desiredPos && currentPos-desiredPos > len(currentTable.columns)-len(desired.table.columns)
 
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
-				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
+				primaryKey := isPrimaryKey(*currentColumn, currentTable) && isPrimaryKey(desiredColumn, desired.table)
+				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn, primaryKey) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
 					definition, err := g.generateColumnDefinition(desiredColumn, false)
 					if err != nil {
 						return ddls, err
@@ -1307,11 +1308,11 @@ func findTriggerByName(triggers []*Trigger, name string) *Trigger {
 	return nil
 }
 
-func (g *Generator) haveSameColumnDefinition(current Column, desired Column) bool {
+func (g *Generator) haveSameColumnDefinition(current Column, desired Column, primaryKey bool) bool {
 	// Not examining AUTO_INCREMENT and UNIQUE KEY because it'll be added in a later stage
 	return g.haveSameDataType(current, desired) &&
 		(current.unsigned == desired.unsigned) &&
-		((current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desired.keyOption == ColumnKeyPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
+		(primaryKey || (current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desired.keyOption == ColumnKeyPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
 		(current.timezone == desired.timezone) &&
 		areSameCheckDefinition(current.check, desired.check) &&
 		(desired.charset == "" || current.charset == desired.charset) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
-- 
2.43.0

