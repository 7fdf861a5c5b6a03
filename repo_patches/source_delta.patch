From 798cad4a4c861c61bd6df2fc934540e537cec547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 01/18] fix: reject input after unknown characters and
 unterminated strings

The lexer returned 0, which is the end of the input, for unknown characters and
unterminated strings. The parser then silently ignored the rest of the query.
---
 src/parser/bison_parser.y | 3 +++
 src/parser/flex_lexer.l   | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 053b78a..ea909a0 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -237,6 +237,9 @@
 %token RANGE ROWS GROUPS UNBOUNDED FOLLOWING PRECEDING CURRENT_ROW
 %token UNIQUE PRIMARY FOREIGN KEY REFERENCES
 
+/* Returned by the lexer for input it cannot tokenize. Part of no rule, i.e., it always causes a syntax error. */
+%token INVALID
+
 /*********************************
  ** Non-Terminal types (http://www.gnu.org/software/bison/manual/html_node/Type-Decl.html)
  *********************************/
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index f4cd348..ff72947 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -260,8 +260,8 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
   errno = 0;
   yylval->ival = strtoll(yytext, nullptr, 0);
   if (errno) {
-    return fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
-    return 0;
+    fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
+    return SQL_INVALID;
   }
   return SQL_INTVAL;
 }
@@ -281,9 +281,9 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 <singlequotedstring>\'\'    { strbuf << '\''; }
 <singlequotedstring>[^']*   { strbuf << yytext; }
 <singlequotedstring>\'      { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
-<singlequotedstring><<EOF>> { fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return 0; }
+<singlequotedstring><<EOF>> { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 
-. { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return 0; }
+. { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
 
 %%
 /***************************
-- 
2.43.0


From de2e7fbdbb27c2fd9c28fef5823679a548125745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 02/18] fix: end comments at the end of the line

The COMMENT state was left only by a rule for a single newline, which loses
against the white space rule if the next line is empty or indented. The line
after the comment was then skipped, too.
---
 src/parser/flex_lexer.l | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index ff72947..77cc88e 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -49,16 +49,12 @@ static thread_local std::stringstream strbuf;
 /* %option nodefault */
 
 
-%s COMMENT
-
 /***************************
  ** Section 3: Rules
  ***************************/
 %%
 
---              BEGIN(COMMENT);
-<COMMENT>[^\n]* /* skipping comment content until a end of line is read */;
-<COMMENT>\n     BEGIN(INITIAL);
+--[^\n]*        /* skip comment until the end of the line */;
 
 [ \t\n]+        /* skip whitespace */;
 
-- 
2.43.0


From 028ae0c7918469f165c72252f1f688cc339331e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 03/18] fix: do not read integers with leading zeros as octal

---
 src/parser/flex_lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index 77cc88e..ca042af 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -254,7 +254,7 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 
 [0-9]+ {
   errno = 0;
-  yylval->ival = strtoll(yytext, nullptr, 0);
+  yylval->ival = strtoll(yytext, nullptr, 10);
   if (errno) {
     fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
     return SQL_INVALID;
-- 
2.43.0


From ed18c292120a5132e54d0a41c9f18360146f0ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 04/18] fix: free the string of the first token in tokenize()

Also initialize the location, which the lexer reads and updates.
---
 src/SQLParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SQLParser.cpp b/src/SQLParser.cpp
index b3bf0df..c6de3c2 100644
--- a/src/SQLParser.cpp
+++ b/src/SQLParser.cpp
@@ -52,18 +52,19 @@ bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) {
   state = hsql__scan_string(sql.c_str(), scanner);
 
   YYSTYPE yylval;
-  YYLTYPE yylloc;
+  YYLTYPE yylloc{};
 
   // Step through the string until EOF is read.
   // Note: hsql_lex returns int, but we know that its range is within 16 bit.
   int16_t token = hsql_lex(&yylval, &yylloc, scanner);
   while (token != 0) {
     tokens->push_back(token);
-    token = hsql_lex(&yylval, &yylloc, scanner);
 
     if (token == SQL_IDENTIFIER || token == SQL_STRING) {
       free(yylval.sval);
     }
+
+    token = hsql_lex(&yylval, &yylloc, scanner);
   }
 
   hsql__delete_buffer(state, scanner);
-- 
2.43.0


From 5fdd5c65ddced89e0e147cb8e686a63f28df416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 05/18] fix: free with descriptions, locking clauses, updates
 and column constraints on errors

The parser's destructors did not free the elements of with and locking clause
lists, and deleting an UpdateClause, LockingClause or ColumnConstraints left
their members behind.
---
 src/parser/bison_parser.y   |  5 ++++-
 src/sql/CreateStatement.cpp | 10 ++++++++++
 src/sql/CreateStatement.h   |  1 +
 src/sql/SelectStatement.h   |  2 ++
 src/sql/UpdateStatement.h   |  2 ++
 src/sql/statements.cpp      | 23 +++++++++++++++--------
 6 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index ea909a0..d924eca 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -199,7 +199,7 @@
     }
   }
   delete ($$);
-} <table_vec> <table_element_vec> <update_vec> <expr_vec> <order_vec> <stmt_vec>
+} <table_vec> <table_element_vec> <update_vec> <expr_vec> <order_vec> <stmt_vec> <with_description_vec> <locking_clause_vec>
 %destructor {
   free($$->second);
   delete ($$);
@@ -710,6 +710,9 @@ column_def : IDENTIFIER column_type opt_column_constraints {
   if (!$$->trySetNullableExplicit()) {
     yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{$1}).c_str());
   }
+  // The column definition owns the constraints and references now.
+  $3->constraints = nullptr;
+  $3->references = nullptr;
   delete $3;
 };
 
diff --git a/src/sql/CreateStatement.cpp b/src/sql/CreateStatement.cpp
index c634083..153c864 100644
--- a/src/sql/CreateStatement.cpp
+++ b/src/sql/CreateStatement.cpp
@@ -58,6 +58,16 @@ ForeignKeyConstraint::~ForeignKeyConstraint() { delete references; }
 ColumnConstraints::ColumnConstraints()
     : constraints{new std::unordered_set<ConstraintType>()}, references{new std::vector<ReferencesSpecification*>} {}
 
+ColumnConstraints::~ColumnConstraints() {
+  delete constraints;
+  if (references) {
+    for (auto* ref : *references) {
+      delete ref;
+    }
+  }
+  delete references;
+}
+
 // ColumnDefinition
 ColumnDefinition::ColumnDefinition(char* name, ColumnType type, std::unordered_set<ConstraintType>* column_constraints,
                                    std::vector<ReferencesSpecification*>* references)
diff --git a/src/sql/CreateStatement.h b/src/sql/CreateStatement.h
index aaad0c2..2e78643 100644
--- a/src/sql/CreateStatement.h
+++ b/src/sql/CreateStatement.h
@@ -65,6 +65,7 @@ struct ColumnDefinition : TableElement {
 
 struct ColumnConstraints {
   explicit ColumnConstraints();
+  ~ColumnConstraints();
 
   std::unordered_set<ConstraintType>* constraints;
   std::vector<ReferencesSpecification*>* references;
diff --git a/src/sql/SelectStatement.h b/src/sql/SelectStatement.h
index a19e699..a8db9c1 100644
--- a/src/sql/SelectStatement.h
+++ b/src/sql/SelectStatement.h
@@ -62,6 +62,8 @@ struct SetOperation {
 };
 
 struct LockingClause {
+  ~LockingClause();
+
   RowLockMode rowLockMode;
   RowLockWaitPolicy rowLockWaitPolicy;
   std::vector<char*>* tables;
diff --git a/src/sql/UpdateStatement.h b/src/sql/UpdateStatement.h
index 6ea9d14..18bca27 100644
--- a/src/sql/UpdateStatement.h
+++ b/src/sql/UpdateStatement.h
@@ -7,6 +7,8 @@ namespace hsql {
 
 // Represents "column = value" expressions.
 struct UpdateClause {
+  ~UpdateClause();
+
   char* column;
   Expr* value;
 };
diff --git a/src/sql/statements.cpp b/src/sql/statements.cpp
index 69cfc70..c5df5b8 100644
--- a/src/sql/statements.cpp
+++ b/src/sql/statements.cpp
@@ -284,6 +284,15 @@ WithDescription::~WithDescription() {
   delete select;
 }
 
+LockingClause::~LockingClause() {
+  if (tables) {
+    for (char* table : *tables) {
+      free(table);
+    }
+    delete tables;
+  }
+}
+
 // SelectStatement
 SelectStatement::SelectStatement()
     : SQLStatement(kStmtSelect),
@@ -335,18 +344,18 @@ SelectStatement::~SelectStatement() {
 
   if (lockings) {
     for (LockingClause* lockingClause : *lockings) {
-      if (lockingClause->tables) {
-        for (char* dtable : *lockingClause->tables) {
-          free(dtable);
-        }
-        delete lockingClause->tables;
-      }
       delete lockingClause;
     }
     delete lockings;
   }
 }
 
+// UpdateClause
+UpdateClause::~UpdateClause() {
+  free(column);
+  delete value;
+}
+
 // UpdateStatement
 UpdateStatement::UpdateStatement() : SQLStatement(kStmtUpdate), table(nullptr), updates(nullptr), where(nullptr) {}
 
@@ -356,8 +365,6 @@ UpdateStatement::~UpdateStatement() {
 
   if (updates) {
     for (UpdateClause* update : *updates) {
-      free(update->column);
-      delete update->value;
       delete update;
     }
     delete updates;
-- 
2.43.0


From 841b21f2c6d9e63fe04ba2d860d9c0357c444d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 06/18] fix: free table name and file path if the file type of
 CREATE TABLE is unknown

---
 src/parser/bison_parser.y | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index d924eca..febf1cf 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -643,16 +643,19 @@ show_statement : SHOW TABLES { $$ = new ShowStatement(kShowTables); }
  * CREATE TABLE students FROM TBL FILE 'test/students.tbl'
  ******************************/
 create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path {
-  $$ = new CreateStatement(kCreateTableFromTbl);
-  $$->ifNotExists = $3;
-  $$->schema = $4.schema;
-  $$->tableName = $4.name;
   if (strcasecmp($6, "tbl") != 0) {
+    free($4.schema);
+    free($4.name);
     free($6);
+    free($8);
     yyerror(&yyloc, result, scanner, "File type is unknown.");
     YYERROR;
   }
   free($6);
+  $$ = new CreateStatement(kCreateTableFromTbl);
+  $$->ifNotExists = $3;
+  $$->schema = $4.schema;
+  $$->tableName = $4.name;
   $$->filePath = $8;
 }
 | CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')' {
-- 
2.43.0


From 7aa2771b5257e2f66df609edca9e9a8e36b528a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 07/18] fix: keep the table's schema in CREATE INDEX

---
 src/parser/bison_parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index febf1cf..255b76a 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -681,6 +681,7 @@ create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE f
   $$ = new CreateStatement(kCreateIndex);
   $$->indexName = $4;
   $$->ifNotExists = $3;
+  $$->schema = $6.schema;
   $$->tableName = $6.name;
   $$->indexColumns = $8;
 }
-- 
2.43.0


From c83d8b66ef85be0602bc4b7b7deac58a2cbbfbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 08/18] fix: free the index literal of array accesses

---
 src/parser/bison_parser.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 255b76a..cacb137 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -1234,7 +1234,10 @@ duration_field : datetime_field | datetime_field_plural;
 
 array_expr : ARRAY '[' expr_list ']' { $$ = Expr::makeArray($3); };
 
-array_index : operand '[' int_literal ']' { $$ = Expr::makeArrayIndex($1, $3->ival); };
+array_index : operand '[' int_literal ']' {
+  $$ = Expr::makeArrayIndex($1, $3->ival);
+  delete $3;
+};
 
 between_expr : operand BETWEEN operand AND operand { $$ = Expr::makeBetween($1, $3, $5); };
 
-- 
2.43.0


From c4a4683732b82e3f09111b531dd7083b167de12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 09/18] fix: free the previous error message when setting a new
 one

---
 src/SQLParserResult.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SQLParserResult.cpp b/src/SQLParserResult.cpp
index b8a4343..601748b 100644
--- a/src/SQLParserResult.cpp
+++ b/src/SQLParserResult.cpp
@@ -42,6 +42,7 @@ int SQLParserResult::errorColumn() const { return errorColumn_; }
 void SQLParserResult::setIsValid(bool isValid) { isValid_ = isValid; }
 
 void SQLParserResult::setErrorDetails(char* errorMsg, int errorLine, int errorColumn) {
+  free(errorMsg_);
   errorMsg_ = errorMsg;
   errorLine_ = errorLine;
   errorColumn_ = errorColumn;
-- 
2.43.0


From 87717daf99cf03bb8c08ba35d2959832caab70c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 10/18] fix: move and reset all parts of SQLParserResult

Moving leaked the target's statements and error message, lost the parameters and
the error position, and read uninitialized members in the move constructor.
reset() kept pointers to the parameters of the deleted statements.
---
 src/SQLParserResult.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/SQLParserResult.cpp b/src/SQLParserResult.cpp
index 601748b..4a6d0ab 100644
--- a/src/SQLParserResult.cpp
+++ b/src/SQLParserResult.cpp
@@ -4,17 +4,26 @@
 
 namespace hsql {
 
-SQLParserResult::SQLParserResult() : isValid_(false), errorMsg_(nullptr) {}
+SQLParserResult::SQLParserResult() : isValid_(false), errorMsg_(nullptr), errorLine_(-1), errorColumn_(-1) {}
 
-SQLParserResult::SQLParserResult(SQLStatement* stmt) : isValid_(false), errorMsg_(nullptr) { addStatement(stmt); }
+SQLParserResult::SQLParserResult(SQLStatement* stmt) : SQLParserResult() { addStatement(stmt); }
 
 // Move constructor.
-SQLParserResult::SQLParserResult(SQLParserResult&& moved) { *this = std::forward<SQLParserResult>(moved); }
+SQLParserResult::SQLParserResult(SQLParserResult&& moved) : SQLParserResult() { *this = std::forward<SQLParserResult>(moved); }
 
 SQLParserResult& SQLParserResult::operator=(SQLParserResult&& moved) {
+  if (this == &moved) {
+    return *this;
+  }
+
+  reset();
+
   isValid_ = moved.isValid_;
   errorMsg_ = moved.errorMsg_;
+  errorLine_ = moved.errorLine_;
+  errorColumn_ = moved.errorColumn_;
   statements_ = std::move(moved.statements_);
+  parameters_ = std::move(moved.parameters_);
 
   moved.errorMsg_ = nullptr;
   moved.reset();
@@ -63,6 +72,7 @@ void SQLParserResult::reset() {
     delete statement;
   }
   statements_.clear();
+  parameters_.clear();
 
   isValid_ = false;
 
-- 
2.43.0


From 6e61fe665f548704b91414a8c8743a444b317b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 11/18] fix: initialize the string length of nested statements

---
 src/sql/SQLStatement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/SQLStatement.cpp b/src/sql/SQLStatement.cpp
index 52ecbec..a864f29 100644
--- a/src/sql/SQLStatement.cpp
+++ b/src/sql/SQLStatement.cpp
@@ -4,7 +4,7 @@
 namespace hsql {
 
 // SQLStatement
-SQLStatement::SQLStatement(StatementType type) : hints(nullptr), type_(type) {}
+SQLStatement::SQLStatement(StatementType type) : stringLength(0), hints(nullptr), type_(type) {}
 
 SQLStatement::~SQLStatement() {
   if (hints) {
-- 
2.43.0


From 44f7be666941a09aa65a23463211332575f020c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 12/18] fix: look ahead before finishing a statement

SHOW TABLES, DESCRIBE and IMPORT statements did not count their semicolon, so that
the next statement's slice of the query started with it. Input like `SELECT 1 2`
or `DROP TABLE a b` was rejected only after the statement was added to the result,
so the invalid result contained statements.
---
 src/parser/bison_parser.y | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index cacb137..1c7412f 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -76,6 +76,11 @@
 %define api.token.prefix {SQL_}
 
 %define parse.error verbose
+
+// Read the lookahead before every reduction. Otherwise, the end of some statements is noticed only after their length
+// was determined (without the terminating semicolon), and invalid input is noticed only after the statements before it
+// were added to the result.
+%define lr.default-reduction accepting
 %locations
 
 %initial-action {
-- 
2.43.0


From fbbb65575f67acec9e69ee61f55a0d9e33793597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 13/18] fix: reset the result before parsing into it

An error message of an earlier parse remained in a valid result and made later
CREATE TABLE statements fail.
---
 src/SQLParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SQLParser.cpp b/src/SQLParser.cpp
index c6de3c2..42fda9e 100644
--- a/src/SQLParser.cpp
+++ b/src/SQLParser.cpp
@@ -11,6 +11,9 @@ SQLParser::SQLParser() { fprintf(stderr, "SQLParser only has static methods atm!
 
 // static
 bool SQLParser::parse(const std::string& sql, SQLParserResult* result) {
+  // Neither statements nor errors of an earlier use must remain in the result.
+  result->reset();
+
   yyscan_t scanner;
   YY_BUFFER_STATE state;
 
-- 
2.43.0


From 340d2b39f662f069b0635fac86e42f7222a6f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 14/18] fix: reject interval durations that overflow

The duration was read as int, so larger values were silently changed.
---
 src/parser/bison_parser.y | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 1c7412f..701f094 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -1278,9 +1278,11 @@ date_literal : DATE STRING {
 
 interval_literal : INTVAL duration_field { $$ = Expr::makeIntervalLiteral($1, $2); }
 | INTERVAL STRING datetime_field {
-  int duration{0}, chars_parsed{0};
-  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf($2, "%d%n", &duration, &chars_parsed) != 1 || $2[chars_parsed] != 0) {
+  long long duration{0};
+  int chars_parsed{0};
+  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character. Limiting
+  // the number of digits ensures that the duration cannot overflow.
+  if (sscanf($2, "%18lld%n", &duration, &chars_parsed) != 1 || $2[chars_parsed] != 0) {
     free($2);
     yyerror(&yyloc, result, scanner, "Found incorrect interval format. Expected format: INTEGER");
     YYERROR;
@@ -1289,11 +1291,13 @@ interval_literal : INTVAL duration_field { $$ = Expr::makeIntervalLiteral($1, $2
   $$ = Expr::makeIntervalLiteral(duration, $3);
 }
 | INTERVAL STRING {
-  int duration{0}, chars_parsed{0};
+  long long duration{0};
+  int chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
   char unit_string[8];
-  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf($2, "%d %7s%n", &duration, unit_string, &chars_parsed) != 2 || $2[chars_parsed] != 0) {
+  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character. Limiting
+  // the number of digits ensures that the duration cannot overflow.
+  if (sscanf($2, "%18lld %7s%n", &duration, unit_string, &chars_parsed) != 2 || $2[chars_parsed] != 0) {
     free($2);
     yyerror(&yyloc, result, scanner, "Found incorrect interval format. Expected format: INTEGER INTERVAL_QUALIIFIER");
     YYERROR;
-- 
2.43.0


From 6b7ef5e94a1b67601b469bce27b0ab02d200de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 15/18] fix: reject queries with null bytes instead of ignoring
 the rest

The query was passed to the lexer as C string, so everything after a null byte was
silently ignored.
---
 src/SQLParser.cpp       | 5 ++---
 src/parser/flex_lexer.l | 7 ++++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SQLParser.cpp b/src/SQLParser.cpp
index 42fda9e..0842c4e 100644
--- a/src/SQLParser.cpp
+++ b/src/SQLParser.cpp
@@ -22,8 +22,7 @@ bool SQLParser::parse(const std::string& sql, SQLParserResult* result) {
     fprintf(stderr, "SQLParser: Error when initializing lexer!\n");
     return false;
   }
-  const char* text = sql.c_str();
-  state = hsql__scan_string(text, scanner);
+  state = hsql__scan_bytes(sql.data(), sql.size(), scanner);
 
   // Parse the tokens.
   // If parsing fails, the result will contain an error object.
@@ -52,7 +51,7 @@ bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) {
   }
 
   YY_BUFFER_STATE state;
-  state = hsql__scan_string(sql.c_str(), scanner);
+  state = hsql__scan_bytes(sql.data(), sql.size(), scanner);
 
   YYSTYPE yylval;
   YYLTYPE yylloc{};
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index ca042af..5351828 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -54,7 +54,7 @@ static thread_local std::stringstream strbuf;
  ***************************/
 %%
 
---[^\n]*        /* skip comment until the end of the line */;
+--[^\n\0]*      /* skip comment until the end of the line */;
 
 [ \t\n]+        /* skip whitespace */;
 
@@ -262,7 +262,7 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
   return SQL_INTVAL;
 }
 
-\"[^\"\n]+\" {
+\"[^\"\n\0]+\" {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
   return SQL_IDENTIFIER;
@@ -275,8 +275,9 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 
 \'                          { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 <singlequotedstring>\'\'    { strbuf << '\''; }
-<singlequotedstring>[^']*   { strbuf << yytext; }
+<singlequotedstring>[^'\0]* { strbuf << yytext; }
 <singlequotedstring>\'      { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
+<singlequotedstring>\0      { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Null byte in string\n"); return SQL_INVALID; }
 <singlequotedstring><<EOF>> { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 
 . { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
-- 
2.43.0


From ccfbcd2b21831b0f5d27527bdc98a362b387e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 16/18] fix: print all operands of CASE, IN and EXISTS and the
 columns of USING

The WHEN list of a CASE with ELSE, the sub-selects of IN and EXISTS and the column
list of JOIN ... USING were not printed.
---
 src/util/sqlhelper.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/util/sqlhelper.cpp b/src/util/sqlhelper.cpp
index a4b0f9d..2c26962 100644
--- a/src/util/sqlhelper.cpp
+++ b/src/util/sqlhelper.cpp
@@ -51,6 +51,9 @@ void printTableRefInfo(TableRef* table, uintmax_t num_indent) {
       printTableRefInfo(table->join->right, num_indent + 2);
       inprint("Join Condition", num_indent + 1);
       printExpression(table->join->condition, num_indent + 2);
+      if (table->join->namedColumns) {
+        for (char* column : *table->join->namedColumns) inprint(column, num_indent + 2);
+      }
       break;
     case kTableCrossProduct:
       for (TableRef* tbl : *table->list) printTableRefInfo(tbl, num_indent);
@@ -82,11 +85,13 @@ void printOperatorExpression(Expr* expr, uintmax_t num_indent) {
   inprint(expr->opType, num_indent);
 
   printExpression(expr->expr, num_indent + 1);
-  if (expr->expr2) {
-    printExpression(expr->expr2, num_indent + 1);
-  } else if (expr->exprList) {
+  if (expr->exprList) {
     for (Expr* e : *expr->exprList) printExpression(e, num_indent + 1);
   }
+  printExpression(expr->expr2, num_indent + 1);
+  if (expr->select) {
+    printSelectStatementInfo(expr->select, num_indent + 1);
+  }
 }
 
 void printExpression(Expr* expr, uintmax_t num_indent) {
-- 
2.43.0


From 5151acf7f3991e30d15d2ac16b1215d37dd7b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 17/18] fix: regenerate the parser and lexer

Generated with src/parser/Makefile from the corrected grammar and lexer rules.
---
 src/parser/bison_parser.cpp | 10404 ++++++++++++++++++++++++----------
 src/parser/bison_parser.h   |   390 +-
 src/parser/flex_lexer.cpp   |  4499 +++++----------
 src/parser/flex_lexer.h     |   476 +-
 4 files changed, 9387 insertions(+), 6382 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 8e44501..8484208 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -1,8 +1,9 @@
-/* A Bison parser, made by GNU Bison 3.0.4.  */
+/* A Bison parser, made by GNU Bison 3.8.2.  */
 
 /* Bison implementation for Yacc-like parsers in C
 
-   Copyright (C) 1984, 1989-1990, 2000-2015 Free Software Foundation, Inc.
+   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
+   Inc.
 
    This program is free software: you can redistribute it and/or modify
    it under the terms of the GNU General Public License as published by
@@ -15,7 +16,7 @@
    GNU General Public License for more details.
 
    You should have received a copy of the GNU General Public License
-   along with this program.  If not, see <http://www.gnu.org/licenses/>.  */
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */
 
 /* As a special exception, you may create a larger work that contains
    part or all of the Bison parser skeleton and distribute that work
@@ -33,6 +34,10 @@
 /* C LALR(1) parser skeleton written by Richard Stallman, by
    simplifying the original so-called "semantic" parser.  */
 
+/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+   especially those whose name start with YY_ or yy_.  They are
+   private implementation details that can be changed or removed.  */
+
 /* All symbols defined below should begin with yy or YY, to avoid
    infringing on user name space.  This should be done even for local
    variables, as they might otherwise be expanded by user macros.
@@ -40,11 +45,11 @@
    define necessary library symbols; they are noted "INFRINGES ON
    USER NAME SPACE" below.  */
 
-/* Identify Bison output.  */
-#define YYBISON 1
+/* Identify Bison output, and Bison version.  */
+#define YYBISON 30802
 
-/* Bison version.  */
-#define YYBISON_VERSION "3.0.4"
+/* Bison version string.  */
+#define YYBISON_VERSION "3.8.2"
 
 /* Skeleton name.  */
 #define YYSKELETON_NAME "yacc.c"
@@ -68,9 +73,8 @@
 #define yydebug         hsql_debug
 #define yynerrs         hsql_nerrs
 
-
-/* Copy the first part of user declarations.  */
-#line 2 "bison_parser.y" /* yacc.c:339  */
+/* First part of user prologue.  */
+#line 2 "bison_parser.y"
 
 
 /**
@@ -101,394 +105,461 @@
   }
   // clang-format off
 
-#line 105 "bison_parser.cpp" /* yacc.c:339  */
+#line 109 "bison_parser.cpp"
 
-# ifndef YY_NULLPTR
-#  if defined __cplusplus && 201103L <= __cplusplus
-#   define YY_NULLPTR nullptr
+# ifndef YY_CAST
+#  ifdef __cplusplus
+#   define YY_CAST(Type, Val) static_cast<Type> (Val)
+#   define YY_REINTERPRET_CAST(Type, Val) reinterpret_cast<Type> (Val)
 #  else
-#   define YY_NULLPTR 0
+#   define YY_CAST(Type, Val) ((Type) (Val))
+#   define YY_REINTERPRET_CAST(Type, Val) ((Type) (Val))
 #  endif
 # endif
-
-/* Enabling verbose error messages.  */
-#ifdef YYERROR_VERBOSE
-# undef YYERROR_VERBOSE
-# define YYERROR_VERBOSE 1
-#else
-# define YYERROR_VERBOSE 1
-#endif
-
-/* In a future release of Bison, this section will be replaced
-   by #include "bison_parser.h".  */
-#ifndef YY_HSQL_BISON_PARSER_H_INCLUDED
-# define YY_HSQL_BISON_PARSER_H_INCLUDED
-/* Debug traces.  */
-#ifndef HSQL_DEBUG
-# if defined YYDEBUG
-#if YYDEBUG
-#   define HSQL_DEBUG 1
+# ifndef YY_NULLPTR
+#  if defined __cplusplus
+#   if 201103L <= __cplusplus
+#    define YY_NULLPTR nullptr
+#   else
+#    define YY_NULLPTR 0
+#   endif
 #  else
-#   define HSQL_DEBUG 0
+#   define YY_NULLPTR ((void*)0)
 #  endif
-# else /* ! defined YYDEBUG */
-#  define HSQL_DEBUG 0
-# endif /* ! defined YYDEBUG */
-#endif  /* ! defined HSQL_DEBUG */
-#if HSQL_DEBUG
-extern int hsql_debug;
-#endif
-/* "%code requires" blocks.  */
-#line 39 "bison_parser.y" /* yacc.c:355  */
-
-// %code requires block
-
-#include "../SQLParserResult.h"
-#include "../sql/statements.h"
-#include "parser_typedef.h"
-
-// Auto update column and line number
-#define YY_USER_ACTION                        \
-  yylloc->first_line = yylloc->last_line;     \
-  yylloc->first_column = yylloc->last_column; \
-  for (int i = 0; yytext[i] != '\0'; i++) {   \
-    yylloc->total_column++;                   \
-    yylloc->string_length++;                  \
-    if (yytext[i] == '\n') {                  \
-      yylloc->last_line++;                    \
-      yylloc->last_column = 0;                \
-    } else {                                  \
-      yylloc->last_column++;                  \
-    }                                         \
-  }
-
-#line 166 "bison_parser.cpp" /* yacc.c:355  */
-
-/* Token type.  */
-#ifndef HSQL_TOKENTYPE
-# define HSQL_TOKENTYPE
-  enum hsql_tokentype
-  {
-    SQL_IDENTIFIER = 258,
-    SQL_STRING = 259,
-    SQL_FLOATVAL = 260,
-    SQL_INTVAL = 261,
-    SQL_DEALLOCATE = 262,
-    SQL_PARAMETERS = 263,
-    SQL_INTERSECT = 264,
-    SQL_TEMPORARY = 265,
-    SQL_TIMESTAMP = 266,
-    SQL_DISTINCT = 267,
-    SQL_NVARCHAR = 268,
-    SQL_RESTRICT = 269,
-    SQL_TRUNCATE = 270,
-    SQL_ANALYZE = 271,
-    SQL_BETWEEN = 272,
-    SQL_CASCADE = 273,
-    SQL_COLUMNS = 274,
-    SQL_CONTROL = 275,
-    SQL_DEFAULT = 276,
-    SQL_EXECUTE = 277,
-    SQL_EXPLAIN = 278,
-    SQL_ENCODING = 279,
-    SQL_INTEGER = 280,
-    SQL_NATURAL = 281,
-    SQL_PREPARE = 282,
-    SQL_SCHEMAS = 283,
-    SQL_CHARACTER_VARYING = 284,
-    SQL_REAL = 285,
-    SQL_DECIMAL = 286,
-    SQL_SMALLINT = 287,
-    SQL_BIGINT = 288,
-    SQL_SPATIAL = 289,
-    SQL_VARCHAR = 290,
-    SQL_VIRTUAL = 291,
-    SQL_DESCRIBE = 292,
-    SQL_BEFORE = 293,
-    SQL_COLUMN = 294,
-    SQL_CREATE = 295,
-    SQL_DELETE = 296,
-    SQL_DIRECT = 297,
-    SQL_DOUBLE = 298,
-    SQL_ESCAPE = 299,
-    SQL_EXCEPT = 300,
-    SQL_EXISTS = 301,
-    SQL_EXTRACT = 302,
-    SQL_CAST = 303,
-    SQL_FORMAT = 304,
-    SQL_GLOBAL = 305,
-    SQL_HAVING = 306,
-    SQL_IMPORT = 307,
-    SQL_INSERT = 308,
-    SQL_ISNULL = 309,
-    SQL_OFFSET = 310,
-    SQL_RENAME = 311,
-    SQL_SCHEMA = 312,
-    SQL_SELECT = 313,
-    SQL_SORTED = 314,
-    SQL_TABLES = 315,
-    SQL_UNLOAD = 316,
-    SQL_UPDATE = 317,
-    SQL_VALUES = 318,
-    SQL_AFTER = 319,
-    SQL_ALTER = 320,
-    SQL_CROSS = 321,
-    SQL_DELTA = 322,
-    SQL_FLOAT = 323,
-    SQL_GROUP = 324,
-    SQL_INDEX = 325,
-    SQL_INNER = 326,
-    SQL_LIMIT = 327,
-    SQL_LOCAL = 328,
-    SQL_MERGE = 329,
-    SQL_MINUS = 330,
-    SQL_ORDER = 331,
-    SQL_OVER = 332,
-    SQL_OUTER = 333,
-    SQL_RIGHT = 334,
-    SQL_TABLE = 335,
-    SQL_UNION = 336,
-    SQL_USING = 337,
-    SQL_WHERE = 338,
-    SQL_CALL = 339,
-    SQL_CASE = 340,
-    SQL_CHAR = 341,
-    SQL_COPY = 342,
-    SQL_DATE = 343,
-    SQL_DATETIME = 344,
-    SQL_DESC = 345,
-    SQL_DROP = 346,
-    SQL_ELSE = 347,
-    SQL_FILE = 348,
-    SQL_FROM = 349,
-    SQL_FULL = 350,
-    SQL_HASH = 351,
-    SQL_HINT = 352,
-    SQL_INTO = 353,
-    SQL_JOIN = 354,
-    SQL_LEFT = 355,
-    SQL_LIKE = 356,
-    SQL_LOAD = 357,
-    SQL_LONG = 358,
-    SQL_NULL = 359,
-    SQL_PARTITION = 360,
-    SQL_PLAN = 361,
-    SQL_SHOW = 362,
-    SQL_TEXT = 363,
-    SQL_THEN = 364,
-    SQL_TIME = 365,
-    SQL_VIEW = 366,
-    SQL_WHEN = 367,
-    SQL_WITH = 368,
-    SQL_ADD = 369,
-    SQL_ALL = 370,
-    SQL_AND = 371,
-    SQL_ASC = 372,
-    SQL_END = 373,
-    SQL_FOR = 374,
-    SQL_INT = 375,
-    SQL_NOT = 376,
-    SQL_OFF = 377,
-    SQL_SET = 378,
-    SQL_TOP = 379,
-    SQL_AS = 380,
-    SQL_BY = 381,
-    SQL_IF = 382,
-    SQL_IN = 383,
-    SQL_IS = 384,
-    SQL_OF = 385,
-    SQL_ON = 386,
-    SQL_OR = 387,
-    SQL_TO = 388,
-    SQL_NO = 389,
-    SQL_ARRAY = 390,
-    SQL_CONCAT = 391,
-    SQL_ILIKE = 392,
-    SQL_SECOND = 393,
-    SQL_MINUTE = 394,
-    SQL_HOUR = 395,
-    SQL_DAY = 396,
-    SQL_MONTH = 397,
-    SQL_YEAR = 398,
-    SQL_SECONDS = 399,
-    SQL_MINUTES = 400,
-    SQL_HOURS = 401,
-    SQL_DAYS = 402,
-    SQL_MONTHS = 403,
-    SQL_YEARS = 404,
-    SQL_INTERVAL = 405,
-    SQL_TRUE = 406,
-    SQL_FALSE = 407,
-    SQL_BOOLEAN = 408,
-    SQL_TRANSACTION = 409,
-    SQL_BEGIN = 410,
-    SQL_COMMIT = 411,
-    SQL_ROLLBACK = 412,
-    SQL_NOWAIT = 413,
-    SQL_SKIP = 414,
-    SQL_LOCKED = 415,
-    SQL_SHARE = 416,
-    SQL_RANGE = 417,
-    SQL_ROWS = 418,
-    SQL_GROUPS = 419,
-    SQL_UNBOUNDED = 420,
-    SQL_FOLLOWING = 421,
-    SQL_PRECEDING = 422,
-    SQL_CURRENT_ROW = 423,
-    SQL_UNIQUE = 424,
-    SQL_PRIMARY = 425,
-    SQL_FOREIGN = 426,
-    SQL_KEY = 427,
-    SQL_REFERENCES = 428,
-    SQL_EQUALS = 429,
-    SQL_NOTEQUALS = 430,
-    SQL_LESS = 431,
-    SQL_GREATER = 432,
-    SQL_LESSEQ = 433,
-    SQL_GREATEREQ = 434,
-    SQL_NOTNULL = 435,
-    SQL_UMINUS = 436
-  };
-#endif
-
-/* Value type.  */
-#if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
+# endif
 
-union HSQL_STYPE
+#include "bison_parser.h"
+/* Symbol kind.  */
+enum yysymbol_kind_t
 {
-#line 102 "bison_parser.y" /* yacc.c:355  */
-
-  // clang-format on
-  bool bval;
-  char* sval;
-  double fval;
-  int64_t ival;
-  uintmax_t uval;
-
-  // statements
-  hsql::AlterStatement* alter_stmt;
-  hsql::CreateStatement* create_stmt;
-  hsql::DeleteStatement* delete_stmt;
-  hsql::DropStatement* drop_stmt;
-  hsql::ExecuteStatement* exec_stmt;
-  hsql::ExportStatement* export_stmt;
-  hsql::ImportStatement* import_stmt;
-  hsql::InsertStatement* insert_stmt;
-  hsql::PrepareStatement* prep_stmt;
-  hsql::SelectStatement* select_stmt;
-  hsql::ShowStatement* show_stmt;
-  hsql::SQLStatement* statement;
-  hsql::TransactionStatement* transaction_stmt;
-  hsql::UpdateStatement* update_stmt;
-
-  hsql::Alias* alias_t;
-  hsql::AlterAction* alter_action_t;
-  hsql::ColumnConstraints* column_constraints_t;
-  hsql::ColumnDefinition* column_t;
-  hsql::ColumnType column_type_t;
-  hsql::ConstraintType column_constraint_t;
-  hsql::DatetimeField datetime_field;
-  hsql::DropColumnAction* drop_action_t;
-  hsql::Expr* expr;
-  hsql::FrameBound* frame_bound;
-  hsql::FrameDescription* frame_description;
-  hsql::FrameType frame_type;
-  hsql::GroupByDescription* group_t;
-  hsql::ImportType import_type_t;
-  hsql::JoinType join_type;
-  hsql::LimitDescription* limit;
-  hsql::LockingClause* locking_t;
-  hsql::OrderDescription* order;
-  hsql::OrderType order_type;
-  hsql::NullOrdering null_ordering_t;
-  hsql::ReferencesSpecification* references_spec_t;
-  hsql::SetOperation* set_operator_t;
-  hsql::TableConstraint* table_constraint_t;
-  hsql::TableElement* table_element_t;
-  hsql::TableName table_name;
-  hsql::TableRef* table;
-  hsql::UpdateClause* update_t;
-  hsql::WindowDescription* window_description;
-  hsql::WithDescription* with_description_t;
-
-  std::vector<char*>* str_vec;
-  std::vector<hsql::Expr*>* expr_vec;
-  std::vector<hsql::OrderDescription*>* order_vec;
-  std::vector<hsql::SQLStatement*>* stmt_vec;
-  std::vector<hsql::TableElement*>* table_element_vec;
-  std::vector<hsql::TableRef*>* table_vec;
-  std::vector<hsql::UpdateClause*>* update_vec;
-  std::vector<hsql::WithDescription*>* with_description_vec;
-  std::vector<hsql::LockingClause*>* locking_clause_vec;
-
-  std::pair<int64_t, int64_t>* ival_pair;
-
-  hsql::RowLockMode lock_mode_t;
-  hsql::RowLockWaitPolicy lock_wait_policy_t;
-
-  hsql::ImportExportOptions* import_export_option_t;
-  std::pair<hsql::CsvOptionType, char*>* csv_option_t;
-
-  // clang-format off
-
-#line 435 "bison_parser.cpp" /* yacc.c:355  */
+  YYSYMBOL_YYEMPTY = -2,
+  YYSYMBOL_YYEOF = 0,                      /* "end of file"  */
+  YYSYMBOL_YYerror = 1,                    /* error  */
+  YYSYMBOL_YYUNDEF = 2,                    /* "invalid token"  */
+  YYSYMBOL_IDENTIFIER = 3,                 /* IDENTIFIER  */
+  YYSYMBOL_STRING = 4,                     /* STRING  */
+  YYSYMBOL_FLOATVAL = 5,                   /* FLOATVAL  */
+  YYSYMBOL_INTVAL = 6,                     /* INTVAL  */
+  YYSYMBOL_DEALLOCATE = 7,                 /* DEALLOCATE  */
+  YYSYMBOL_PARAMETERS = 8,                 /* PARAMETERS  */
+  YYSYMBOL_INTERSECT = 9,                  /* INTERSECT  */
+  YYSYMBOL_TEMPORARY = 10,                 /* TEMPORARY  */
+  YYSYMBOL_TIMESTAMP = 11,                 /* TIMESTAMP  */
+  YYSYMBOL_DISTINCT = 12,                  /* DISTINCT  */
+  YYSYMBOL_NVARCHAR = 13,                  /* NVARCHAR  */
+  YYSYMBOL_RESTRICT = 14,                  /* RESTRICT  */
+  YYSYMBOL_TRUNCATE = 15,                  /* TRUNCATE  */
+  YYSYMBOL_ANALYZE = 16,                   /* ANALYZE  */
+  YYSYMBOL_BETWEEN = 17,                   /* BETWEEN  */
+  YYSYMBOL_CASCADE = 18,                   /* CASCADE  */
+  YYSYMBOL_COLUMNS = 19,                   /* COLUMNS  */
+  YYSYMBOL_CONTROL = 20,                   /* CONTROL  */
+  YYSYMBOL_DEFAULT = 21,                   /* DEFAULT  */
+  YYSYMBOL_EXECUTE = 22,                   /* EXECUTE  */
+  YYSYMBOL_EXPLAIN = 23,                   /* EXPLAIN  */
+  YYSYMBOL_ENCODING = 24,                  /* ENCODING  */
+  YYSYMBOL_INTEGER = 25,                   /* INTEGER  */
+  YYSYMBOL_NATURAL = 26,                   /* NATURAL  */
+  YYSYMBOL_PREPARE = 27,                   /* PREPARE  */
+  YYSYMBOL_SCHEMAS = 28,                   /* SCHEMAS  */
+  YYSYMBOL_CHARACTER_VARYING = 29,         /* CHARACTER_VARYING  */
+  YYSYMBOL_REAL = 30,                      /* REAL  */
+  YYSYMBOL_DECIMAL = 31,                   /* DECIMAL  */
+  YYSYMBOL_SMALLINT = 32,                  /* SMALLINT  */
+  YYSYMBOL_BIGINT = 33,                    /* BIGINT  */
+  YYSYMBOL_SPATIAL = 34,                   /* SPATIAL  */
+  YYSYMBOL_VARCHAR = 35,                   /* VARCHAR  */
+  YYSYMBOL_VIRTUAL = 36,                   /* VIRTUAL  */
+  YYSYMBOL_DESCRIBE = 37,                  /* DESCRIBE  */
+  YYSYMBOL_BEFORE = 38,                    /* BEFORE  */
+  YYSYMBOL_COLUMN = 39,                    /* COLUMN  */
+  YYSYMBOL_CREATE = 40,                    /* CREATE  */
+  YYSYMBOL_DELETE = 41,                    /* DELETE  */
+  YYSYMBOL_DIRECT = 42,                    /* DIRECT  */
+  YYSYMBOL_DOUBLE = 43,                    /* DOUBLE  */
+  YYSYMBOL_ESCAPE = 44,                    /* ESCAPE  */
+  YYSYMBOL_EXCEPT = 45,                    /* EXCEPT  */
+  YYSYMBOL_EXISTS = 46,                    /* EXISTS  */
+  YYSYMBOL_EXTRACT = 47,                   /* EXTRACT  */
+  YYSYMBOL_CAST = 48,                      /* CAST  */
+  YYSYMBOL_FORMAT = 49,                    /* FORMAT  */
+  YYSYMBOL_GLOBAL = 50,                    /* GLOBAL  */
+  YYSYMBOL_HAVING = 51,                    /* HAVING  */
+  YYSYMBOL_IMPORT = 52,                    /* IMPORT  */
+  YYSYMBOL_INSERT = 53,                    /* INSERT  */
+  YYSYMBOL_ISNULL = 54,                    /* ISNULL  */
+  YYSYMBOL_OFFSET = 55,                    /* OFFSET  */
+  YYSYMBOL_RENAME = 56,                    /* RENAME  */
+  YYSYMBOL_SCHEMA = 57,                    /* SCHEMA  */
+  YYSYMBOL_SELECT = 58,                    /* SELECT  */
+  YYSYMBOL_SORTED = 59,                    /* SORTED  */
+  YYSYMBOL_TABLES = 60,                    /* TABLES  */
+  YYSYMBOL_UNLOAD = 61,                    /* UNLOAD  */
+  YYSYMBOL_UPDATE = 62,                    /* UPDATE  */
+  YYSYMBOL_VALUES = 63,                    /* VALUES  */
+  YYSYMBOL_AFTER = 64,                     /* AFTER  */
+  YYSYMBOL_ALTER = 65,                     /* ALTER  */
+  YYSYMBOL_CROSS = 66,                     /* CROSS  */
+  YYSYMBOL_DELTA = 67,                     /* DELTA  */
+  YYSYMBOL_FLOAT = 68,                     /* FLOAT  */
+  YYSYMBOL_GROUP = 69,                     /* GROUP  */
+  YYSYMBOL_INDEX = 70,                     /* INDEX  */
+  YYSYMBOL_INNER = 71,                     /* INNER  */
+  YYSYMBOL_LIMIT = 72,                     /* LIMIT  */
+  YYSYMBOL_LOCAL = 73,                     /* LOCAL  */
+  YYSYMBOL_MERGE = 74,                     /* MERGE  */
+  YYSYMBOL_MINUS = 75,                     /* MINUS  */
+  YYSYMBOL_ORDER = 76,                     /* ORDER  */
+  YYSYMBOL_OVER = 77,                      /* OVER  */
+  YYSYMBOL_OUTER = 78,                     /* OUTER  */
+  YYSYMBOL_RIGHT = 79,                     /* RIGHT  */
+  YYSYMBOL_TABLE = 80,                     /* TABLE  */
+  YYSYMBOL_UNION = 81,                     /* UNION  */
+  YYSYMBOL_USING = 82,                     /* USING  */
+  YYSYMBOL_WHERE = 83,                     /* WHERE  */
+  YYSYMBOL_CALL = 84,                      /* CALL  */
+  YYSYMBOL_CASE = 85,                      /* CASE  */
+  YYSYMBOL_CHAR = 86,                      /* CHAR  */
+  YYSYMBOL_COPY = 87,                      /* COPY  */
+  YYSYMBOL_DATE = 88,                      /* DATE  */
+  YYSYMBOL_DATETIME = 89,                  /* DATETIME  */
+  YYSYMBOL_DESC = 90,                      /* DESC  */
+  YYSYMBOL_DROP = 91,                      /* DROP  */
+  YYSYMBOL_ELSE = 92,                      /* ELSE  */
+  YYSYMBOL_FILE = 93,                      /* FILE  */
+  YYSYMBOL_FROM = 94,                      /* FROM  */
+  YYSYMBOL_FULL = 95,                      /* FULL  */
+  YYSYMBOL_HASH = 96,                      /* HASH  */
+  YYSYMBOL_HINT = 97,                      /* HINT  */
+  YYSYMBOL_INTO = 98,                      /* INTO  */
+  YYSYMBOL_JOIN = 99,                      /* JOIN  */
+  YYSYMBOL_LEFT = 100,                     /* LEFT  */
+  YYSYMBOL_LIKE = 101,                     /* LIKE  */
+  YYSYMBOL_LOAD = 102,                     /* LOAD  */
+  YYSYMBOL_LONG = 103,                     /* LONG  */
+  YYSYMBOL_NULL = 104,                     /* NULL  */
+  YYSYMBOL_PARTITION = 105,                /* PARTITION  */
+  YYSYMBOL_PLAN = 106,                     /* PLAN  */
+  YYSYMBOL_SHOW = 107,                     /* SHOW  */
+  YYSYMBOL_TEXT = 108,                     /* TEXT  */
+  YYSYMBOL_THEN = 109,                     /* THEN  */
+  YYSYMBOL_TIME = 110,                     /* TIME  */
+  YYSYMBOL_VIEW = 111,                     /* VIEW  */
+  YYSYMBOL_WHEN = 112,                     /* WHEN  */
+  YYSYMBOL_WITH = 113,                     /* WITH  */
+  YYSYMBOL_ADD = 114,                      /* ADD  */
+  YYSYMBOL_ALL = 115,                      /* ALL  */
+  YYSYMBOL_AND = 116,                      /* AND  */
+  YYSYMBOL_ASC = 117,                      /* ASC  */
+  YYSYMBOL_END = 118,                      /* END  */
+  YYSYMBOL_FOR = 119,                      /* FOR  */
+  YYSYMBOL_INT = 120,                      /* INT  */
+  YYSYMBOL_NOT = 121,                      /* NOT  */
+  YYSYMBOL_OFF = 122,                      /* OFF  */
+  YYSYMBOL_SET = 123,                      /* SET  */
+  YYSYMBOL_TOP = 124,                      /* TOP  */
+  YYSYMBOL_AS = 125,                       /* AS  */
+  YYSYMBOL_BY = 126,                       /* BY  */
+  YYSYMBOL_IF = 127,                       /* IF  */
+  YYSYMBOL_IN = 128,                       /* IN  */
+  YYSYMBOL_IS = 129,                       /* IS  */
+  YYSYMBOL_OF = 130,                       /* OF  */
+  YYSYMBOL_ON = 131,                       /* ON  */
+  YYSYMBOL_OR = 132,                       /* OR  */
+  YYSYMBOL_TO = 133,                       /* TO  */
+  YYSYMBOL_NO = 134,                       /* NO  */
+  YYSYMBOL_ARRAY = 135,                    /* ARRAY  */
+  YYSYMBOL_CONCAT = 136,                   /* CONCAT  */
+  YYSYMBOL_ILIKE = 137,                    /* ILIKE  */
+  YYSYMBOL_SECOND = 138,                   /* SECOND  */
+  YYSYMBOL_MINUTE = 139,                   /* MINUTE  */
+  YYSYMBOL_HOUR = 140,                     /* HOUR  */
+  YYSYMBOL_DAY = 141,                      /* DAY  */
+  YYSYMBOL_MONTH = 142,                    /* MONTH  */
+  YYSYMBOL_YEAR = 143,                     /* YEAR  */
+  YYSYMBOL_SECONDS = 144,                  /* SECONDS  */
+  YYSYMBOL_MINUTES = 145,                  /* MINUTES  */
+  YYSYMBOL_HOURS = 146,                    /* HOURS  */
+  YYSYMBOL_DAYS = 147,                     /* DAYS  */
+  YYSYMBOL_MONTHS = 148,                   /* MONTHS  */
+  YYSYMBOL_YEARS = 149,                    /* YEARS  */
+  YYSYMBOL_INTERVAL = 150,                 /* INTERVAL  */
+  YYSYMBOL_TRUE = 151,                     /* TRUE  */
+  YYSYMBOL_FALSE = 152,                    /* FALSE  */
+  YYSYMBOL_BOOLEAN = 153,                  /* BOOLEAN  */
+  YYSYMBOL_TRANSACTION = 154,              /* TRANSACTION  */
+  YYSYMBOL_BEGIN = 155,                    /* BEGIN  */
+  YYSYMBOL_COMMIT = 156,                   /* COMMIT  */
+  YYSYMBOL_ROLLBACK = 157,                 /* ROLLBACK  */
+  YYSYMBOL_NOWAIT = 158,                   /* NOWAIT  */
+  YYSYMBOL_SKIP = 159,                     /* SKIP  */
+  YYSYMBOL_LOCKED = 160,                   /* LOCKED  */
+  YYSYMBOL_SHARE = 161,                    /* SHARE  */
+  YYSYMBOL_RANGE = 162,                    /* RANGE  */
+  YYSYMBOL_ROWS = 163,                     /* ROWS  */
+  YYSYMBOL_GROUPS = 164,                   /* GROUPS  */
+  YYSYMBOL_UNBOUNDED = 165,                /* UNBOUNDED  */
+  YYSYMBOL_FOLLOWING = 166,                /* FOLLOWING  */
+  YYSYMBOL_PRECEDING = 167,                /* PRECEDING  */
+  YYSYMBOL_CURRENT_ROW = 168,              /* CURRENT_ROW  */
+  YYSYMBOL_UNIQUE = 169,                   /* UNIQUE  */
+  YYSYMBOL_PRIMARY = 170,                  /* PRIMARY  */
+  YYSYMBOL_FOREIGN = 171,                  /* FOREIGN  */
+  YYSYMBOL_KEY = 172,                      /* KEY  */
+  YYSYMBOL_REFERENCES = 173,               /* REFERENCES  */
+  YYSYMBOL_INVALID = 174,                  /* INVALID  */
+  YYSYMBOL_175_ = 175,                     /* '='  */
+  YYSYMBOL_EQUALS = 176,                   /* EQUALS  */
+  YYSYMBOL_NOTEQUALS = 177,                /* NOTEQUALS  */
+  YYSYMBOL_178_ = 178,                     /* '<'  */
+  YYSYMBOL_179_ = 179,                     /* '>'  */
+  YYSYMBOL_LESS = 180,                     /* LESS  */
+  YYSYMBOL_GREATER = 181,                  /* GREATER  */
+  YYSYMBOL_LESSEQ = 182,                   /* LESSEQ  */
+  YYSYMBOL_GREATEREQ = 183,                /* GREATEREQ  */
+  YYSYMBOL_NOTNULL = 184,                  /* NOTNULL  */
+  YYSYMBOL_185_ = 185,                     /* '+'  */
+  YYSYMBOL_186_ = 186,                     /* '-'  */
+  YYSYMBOL_187_ = 187,                     /* '*'  */
+  YYSYMBOL_188_ = 188,                     /* '/'  */
+  YYSYMBOL_189_ = 189,                     /* '%'  */
+  YYSYMBOL_190_ = 190,                     /* '^'  */
+  YYSYMBOL_UMINUS = 191,                   /* UMINUS  */
+  YYSYMBOL_192_ = 192,                     /* '['  */
+  YYSYMBOL_193_ = 193,                     /* ']'  */
+  YYSYMBOL_194_ = 194,                     /* '('  */
+  YYSYMBOL_195_ = 195,                     /* ')'  */
+  YYSYMBOL_196_ = 196,                     /* '.'  */
+  YYSYMBOL_197_ = 197,                     /* ';'  */
+  YYSYMBOL_198_ = 198,                     /* ','  */
+  YYSYMBOL_199_ = 199,                     /* '?'  */
+  YYSYMBOL_YYACCEPT = 200,                 /* $accept  */
+  YYSYMBOL_input = 201,                    /* input  */
+  YYSYMBOL_statement_list = 202,           /* statement_list  */
+  YYSYMBOL_statement = 203,                /* statement  */
+  YYSYMBOL_preparable_statement = 204,     /* preparable_statement  */
+  YYSYMBOL_opt_hints = 205,                /* opt_hints  */
+  YYSYMBOL_hint_list = 206,                /* hint_list  */
+  YYSYMBOL_hint = 207,                     /* hint  */
+  YYSYMBOL_transaction_statement = 208,    /* transaction_statement  */
+  YYSYMBOL_opt_transaction_keyword = 209,  /* opt_transaction_keyword  */
+  YYSYMBOL_prepare_statement = 210,        /* prepare_statement  */
+  YYSYMBOL_prepare_target_query = 211,     /* prepare_target_query  */
+  YYSYMBOL_execute_statement = 212,        /* execute_statement  */
+  YYSYMBOL_import_statement = 213,         /* import_statement  */
+  YYSYMBOL_file_type = 214,                /* file_type  */
+  YYSYMBOL_file_path = 215,                /* file_path  */
+  YYSYMBOL_opt_import_export_options = 216, /* opt_import_export_options  */
+  YYSYMBOL_import_export_options = 217,    /* import_export_options  */
+  YYSYMBOL_csv_option = 218,               /* csv_option  */
+  YYSYMBOL_export_statement = 219,         /* export_statement  */
+  YYSYMBOL_show_statement = 220,           /* show_statement  */
+  YYSYMBOL_create_statement = 221,         /* create_statement  */
+  YYSYMBOL_opt_not_exists = 222,           /* opt_not_exists  */
+  YYSYMBOL_table_elem_commalist = 223,     /* table_elem_commalist  */
+  YYSYMBOL_table_elem = 224,               /* table_elem  */
+  YYSYMBOL_column_def = 225,               /* column_def  */
+  YYSYMBOL_column_type = 226,              /* column_type  */
+  YYSYMBOL_opt_time_precision = 227,       /* opt_time_precision  */
+  YYSYMBOL_opt_decimal_specification = 228, /* opt_decimal_specification  */
+  YYSYMBOL_opt_column_constraints = 229,   /* opt_column_constraints  */
+  YYSYMBOL_column_constraints = 230,       /* column_constraints  */
+  YYSYMBOL_column_constraint = 231,        /* column_constraint  */
+  YYSYMBOL_table_constraint = 232,         /* table_constraint  */
+  YYSYMBOL_references_spec = 233,          /* references_spec  */
+  YYSYMBOL_drop_statement = 234,           /* drop_statement  */
+  YYSYMBOL_opt_exists = 235,               /* opt_exists  */
+  YYSYMBOL_alter_statement = 236,          /* alter_statement  */
+  YYSYMBOL_alter_action = 237,             /* alter_action  */
+  YYSYMBOL_drop_action = 238,              /* drop_action  */
+  YYSYMBOL_delete_statement = 239,         /* delete_statement  */
+  YYSYMBOL_truncate_statement = 240,       /* truncate_statement  */
+  YYSYMBOL_insert_statement = 241,         /* insert_statement  */
+  YYSYMBOL_opt_column_list = 242,          /* opt_column_list  */
+  YYSYMBOL_update_statement = 243,         /* update_statement  */
+  YYSYMBOL_update_clause_commalist = 244,  /* update_clause_commalist  */
+  YYSYMBOL_update_clause = 245,            /* update_clause  */
+  YYSYMBOL_select_statement = 246,         /* select_statement  */
+  YYSYMBOL_select_within_set_operation = 247, /* select_within_set_operation  */
+  YYSYMBOL_select_within_set_operation_no_parentheses = 248, /* select_within_set_operation_no_parentheses  */
+  YYSYMBOL_select_with_paren = 249,        /* select_with_paren  */
+  YYSYMBOL_select_no_paren = 250,          /* select_no_paren  */
+  YYSYMBOL_set_operator = 251,             /* set_operator  */
+  YYSYMBOL_set_type = 252,                 /* set_type  */
+  YYSYMBOL_opt_all = 253,                  /* opt_all  */
+  YYSYMBOL_select_clause = 254,            /* select_clause  */
+  YYSYMBOL_opt_distinct = 255,             /* opt_distinct  */
+  YYSYMBOL_select_list = 256,              /* select_list  */
+  YYSYMBOL_opt_from_clause = 257,          /* opt_from_clause  */
+  YYSYMBOL_from_clause = 258,              /* from_clause  */
+  YYSYMBOL_opt_where = 259,                /* opt_where  */
+  YYSYMBOL_opt_group = 260,                /* opt_group  */
+  YYSYMBOL_opt_having = 261,               /* opt_having  */
+  YYSYMBOL_opt_order = 262,                /* opt_order  */
+  YYSYMBOL_order_list = 263,               /* order_list  */
+  YYSYMBOL_order_desc = 264,               /* order_desc  */
+  YYSYMBOL_opt_order_type = 265,           /* opt_order_type  */
+  YYSYMBOL_opt_null_ordering = 266,        /* opt_null_ordering  */
+  YYSYMBOL_opt_top = 267,                  /* opt_top  */
+  YYSYMBOL_opt_limit = 268,                /* opt_limit  */
+  YYSYMBOL_expr_list = 269,                /* expr_list  */
+  YYSYMBOL_opt_extended_literal_list = 270, /* opt_extended_literal_list  */
+  YYSYMBOL_extended_literal_list = 271,    /* extended_literal_list  */
+  YYSYMBOL_casted_extended_literal = 272,  /* casted_extended_literal  */
+  YYSYMBOL_extended_literal = 273,         /* extended_literal  */
+  YYSYMBOL_expr_alias = 274,               /* expr_alias  */
+  YYSYMBOL_expr = 275,                     /* expr  */
+  YYSYMBOL_operand = 276,                  /* operand  */
+  YYSYMBOL_scalar_expr = 277,              /* scalar_expr  */
+  YYSYMBOL_unary_expr = 278,               /* unary_expr  */
+  YYSYMBOL_binary_expr = 279,              /* binary_expr  */
+  YYSYMBOL_logic_expr = 280,               /* logic_expr  */
+  YYSYMBOL_in_expr = 281,                  /* in_expr  */
+  YYSYMBOL_case_expr = 282,                /* case_expr  */
+  YYSYMBOL_case_list = 283,                /* case_list  */
+  YYSYMBOL_exists_expr = 284,              /* exists_expr  */
+  YYSYMBOL_comp_expr = 285,                /* comp_expr  */
+  YYSYMBOL_function_expr = 286,            /* function_expr  */
+  YYSYMBOL_opt_window = 287,               /* opt_window  */
+  YYSYMBOL_opt_partition = 288,            /* opt_partition  */
+  YYSYMBOL_opt_frame_clause = 289,         /* opt_frame_clause  */
+  YYSYMBOL_frame_type = 290,               /* frame_type  */
+  YYSYMBOL_frame_bound = 291,              /* frame_bound  */
+  YYSYMBOL_extract_expr = 292,             /* extract_expr  */
+  YYSYMBOL_cast_expr = 293,                /* cast_expr  */
+  YYSYMBOL_datetime_field = 294,           /* datetime_field  */
+  YYSYMBOL_datetime_field_plural = 295,    /* datetime_field_plural  */
+  YYSYMBOL_duration_field = 296,           /* duration_field  */
+  YYSYMBOL_array_expr = 297,               /* array_expr  */
+  YYSYMBOL_array_index = 298,              /* array_index  */
+  YYSYMBOL_between_expr = 299,             /* between_expr  */
+  YYSYMBOL_column_name = 300,              /* column_name  */
+  YYSYMBOL_literal = 301,                  /* literal  */
+  YYSYMBOL_string_literal = 302,           /* string_literal  */
+  YYSYMBOL_bool_literal = 303,             /* bool_literal  */
+  YYSYMBOL_num_literal = 304,              /* num_literal  */
+  YYSYMBOL_int_literal = 305,              /* int_literal  */
+  YYSYMBOL_null_literal = 306,             /* null_literal  */
+  YYSYMBOL_date_literal = 307,             /* date_literal  */
+  YYSYMBOL_interval_literal = 308,         /* interval_literal  */
+  YYSYMBOL_param_expr = 309,               /* param_expr  */
+  YYSYMBOL_table_ref = 310,                /* table_ref  */
+  YYSYMBOL_table_ref_atomic = 311,         /* table_ref_atomic  */
+  YYSYMBOL_nonjoin_table_ref_atomic = 312, /* nonjoin_table_ref_atomic  */
+  YYSYMBOL_table_ref_commalist = 313,      /* table_ref_commalist  */
+  YYSYMBOL_table_ref_name = 314,           /* table_ref_name  */
+  YYSYMBOL_table_ref_name_no_alias = 315,  /* table_ref_name_no_alias  */
+  YYSYMBOL_table_name = 316,               /* table_name  */
+  YYSYMBOL_opt_index_name = 317,           /* opt_index_name  */
+  YYSYMBOL_table_alias = 318,              /* table_alias  */
+  YYSYMBOL_opt_table_alias = 319,          /* opt_table_alias  */
+  YYSYMBOL_alias = 320,                    /* alias  */
+  YYSYMBOL_opt_alias = 321,                /* opt_alias  */
+  YYSYMBOL_opt_locking_clause = 322,       /* opt_locking_clause  */
+  YYSYMBOL_opt_locking_clause_list = 323,  /* opt_locking_clause_list  */
+  YYSYMBOL_locking_clause = 324,           /* locking_clause  */
+  YYSYMBOL_row_lock_mode = 325,            /* row_lock_mode  */
+  YYSYMBOL_opt_row_lock_policy = 326,      /* opt_row_lock_policy  */
+  YYSYMBOL_opt_with_clause = 327,          /* opt_with_clause  */
+  YYSYMBOL_with_clause = 328,              /* with_clause  */
+  YYSYMBOL_with_description_list = 329,    /* with_description_list  */
+  YYSYMBOL_with_description = 330,         /* with_description  */
+  YYSYMBOL_join_clause = 331,              /* join_clause  */
+  YYSYMBOL_opt_join_type = 332,            /* opt_join_type  */
+  YYSYMBOL_join_condition = 333,           /* join_condition  */
+  YYSYMBOL_opt_semicolon = 334,            /* opt_semicolon  */
+  YYSYMBOL_ident_commalist = 335           /* ident_commalist  */
 };
+typedef enum yysymbol_kind_t yysymbol_kind_t;
 
-typedef union HSQL_STYPE HSQL_STYPE;
-# define HSQL_STYPE_IS_TRIVIAL 1
-# define HSQL_STYPE_IS_DECLARED 1
-#endif
-
-/* Location type.  */
-#if ! defined HSQL_LTYPE && ! defined HSQL_LTYPE_IS_DECLARED
-typedef struct HSQL_LTYPE HSQL_LTYPE;
-struct HSQL_LTYPE
-{
-  int first_line;
-  int first_column;
-  int last_line;
-  int last_column;
-};
-# define HSQL_LTYPE_IS_DECLARED 1
-# define HSQL_LTYPE_IS_TRIVIAL 1
-#endif
 
 
 
-int hsql_parse (hsql::SQLParserResult* result, yyscan_t scanner);
+#ifdef short
+# undef short
+#endif
 
-#endif /* !YY_HSQL_BISON_PARSER_H_INCLUDED  */
+/* On compilers that do not define __PTRDIFF_MAX__ etc., make sure
+   <limits.h> and (if available) <stdint.h> are included
+   so that the code can choose integer types of a good width.  */
 
-/* Copy the second part of user declarations.  */
+#ifndef __PTRDIFF_MAX__
+# include <limits.h> /* INFRINGES ON USER NAME SPACE */
+# if defined __STDC_VERSION__ && 199901 <= __STDC_VERSION__
+#  include <stdint.h> /* INFRINGES ON USER NAME SPACE */
+#  define YY_STDINT_H
+# endif
+#endif
 
-#line 465 "bison_parser.cpp" /* yacc.c:358  */
+/* Narrow types that promote to a signed type and that can represent a
+   signed or unsigned integer of at least N bits.  In tables they can
+   save space and decrease cache pressure.  Promoting to a signed type
+   helps avoid bugs in integer arithmetic.  */
 
-#ifdef short
-# undef short
+#ifdef __INT_LEAST8_MAX__
+typedef __INT_LEAST8_TYPE__ yytype_int8;
+#elif defined YY_STDINT_H
+typedef int_least8_t yytype_int8;
+#else
+typedef signed char yytype_int8;
 #endif
 
-#ifdef YYTYPE_UINT8
-typedef YYTYPE_UINT8 yytype_uint8;
+#ifdef __INT_LEAST16_MAX__
+typedef __INT_LEAST16_TYPE__ yytype_int16;
+#elif defined YY_STDINT_H
+typedef int_least16_t yytype_int16;
 #else
-typedef unsigned char yytype_uint8;
+typedef short yytype_int16;
 #endif
 
-#ifdef YYTYPE_INT8
-typedef YYTYPE_INT8 yytype_int8;
-#else
-typedef signed char yytype_int8;
+/* Work around bug in HP-UX 11.23, which defines these macros
+   incorrectly for preprocessor constants.  This workaround can likely
+   be removed in 2023, as HPE has promised support for HP-UX 11.23
+   (aka HP-UX 11i v2) only through the end of 2022; see Table 2 of
+   <https://h20195.www2.hpe.com/V2/getpdf.aspx/4AA4-7673ENW.pdf>.  */
+#ifdef __hpux
+# undef UINT_LEAST8_MAX
+# undef UINT_LEAST16_MAX
+# define UINT_LEAST8_MAX 255
+# define UINT_LEAST16_MAX 65535
 #endif
 
-#ifdef YYTYPE_UINT16
-typedef YYTYPE_UINT16 yytype_uint16;
+#if defined __UINT_LEAST8_MAX__ && __UINT_LEAST8_MAX__ <= __INT_MAX__
+typedef __UINT_LEAST8_TYPE__ yytype_uint8;
+#elif (!defined __UINT_LEAST8_MAX__ && defined YY_STDINT_H \
+       && UINT_LEAST8_MAX <= INT_MAX)
+typedef uint_least8_t yytype_uint8;
+#elif !defined __UINT_LEAST8_MAX__ && UCHAR_MAX <= INT_MAX
+typedef unsigned char yytype_uint8;
 #else
-typedef unsigned short int yytype_uint16;
+typedef short yytype_uint8;
 #endif
 
-#ifdef YYTYPE_INT16
-typedef YYTYPE_INT16 yytype_int16;
+#if defined __UINT_LEAST16_MAX__ && __UINT_LEAST16_MAX__ <= __INT_MAX__
+typedef __UINT_LEAST16_TYPE__ yytype_uint16;
+#elif (!defined __UINT_LEAST16_MAX__ && defined YY_STDINT_H \
+       && UINT_LEAST16_MAX <= INT_MAX)
+typedef uint_least16_t yytype_uint16;
+#elif !defined __UINT_LEAST16_MAX__ && USHRT_MAX <= INT_MAX
+typedef unsigned short yytype_uint16;
 #else
-typedef short int yytype_int16;
+typedef int yytype_uint16;
+#endif
+
+#ifndef YYPTRDIFF_T
+# if defined __PTRDIFF_TYPE__ && defined __PTRDIFF_MAX__
+#  define YYPTRDIFF_T __PTRDIFF_TYPE__
+#  define YYPTRDIFF_MAXIMUM __PTRDIFF_MAX__
+# elif defined PTRDIFF_MAX
+#  ifndef ptrdiff_t
+#   include <stddef.h> /* INFRINGES ON USER NAME SPACE */
+#  endif
+#  define YYPTRDIFF_T ptrdiff_t
+#  define YYPTRDIFF_MAXIMUM PTRDIFF_MAX
+# else
+#  define YYPTRDIFF_T long
+#  define YYPTRDIFF_MAXIMUM LONG_MAX
+# endif
 #endif
 
 #ifndef YYSIZE_T
@@ -496,15 +567,28 @@ typedef short int yytype_int16;
 #  define YYSIZE_T __SIZE_TYPE__
 # elif defined size_t
 #  define YYSIZE_T size_t
-# elif ! defined YYSIZE_T
+# elif defined __STDC_VERSION__ && 199901 <= __STDC_VERSION__
 #  include <stddef.h> /* INFRINGES ON USER NAME SPACE */
 #  define YYSIZE_T size_t
 # else
-#  define YYSIZE_T unsigned int
+#  define YYSIZE_T unsigned
 # endif
 #endif
 
-#define YYSIZE_MAXIMUM ((YYSIZE_T) -1)
+#define YYSIZE_MAXIMUM                                  \
+  YY_CAST (YYPTRDIFF_T,                                 \
+           (YYPTRDIFF_MAXIMUM < YY_CAST (YYSIZE_T, -1)  \
+            ? YYPTRDIFF_MAXIMUM                         \
+            : YY_CAST (YYSIZE_T, -1)))
+
+#define YYSIZEOF(X) YY_CAST (YYPTRDIFF_T, sizeof (X))
+
+
+/* Stored state numbers (used for stacks). */
+typedef yytype_int16 yy_state_t;
+
+/* State numbers in computations.  */
+typedef int yy_state_fast_t;
 
 #ifndef YY_
 # if defined YYENABLE_NLS && YYENABLE_NLS
@@ -518,47 +602,43 @@ typedef short int yytype_int16;
 # endif
 #endif
 
-#ifndef YY_ATTRIBUTE
-# if (defined __GNUC__                                               \
-      && (2 < __GNUC__ || (__GNUC__ == 2 && 96 <= __GNUC_MINOR__)))  \
-     || defined __SUNPRO_C && 0x5110 <= __SUNPRO_C
-#  define YY_ATTRIBUTE(Spec) __attribute__(Spec)
-# else
-#  define YY_ATTRIBUTE(Spec) /* empty */
-# endif
-#endif
 
 #ifndef YY_ATTRIBUTE_PURE
-# define YY_ATTRIBUTE_PURE   YY_ATTRIBUTE ((__pure__))
+# if defined __GNUC__ && 2 < __GNUC__ + (96 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_PURE __attribute__ ((__pure__))
+# else
+#  define YY_ATTRIBUTE_PURE
+# endif
 #endif
 
 #ifndef YY_ATTRIBUTE_UNUSED
-# define YY_ATTRIBUTE_UNUSED YY_ATTRIBUTE ((__unused__))
-#endif
-
-#if !defined _Noreturn \
-     && (!defined __STDC_VERSION__ || __STDC_VERSION__ < 201112)
-# if defined _MSC_VER && 1200 <= _MSC_VER
-#  define _Noreturn __declspec (noreturn)
+# if defined __GNUC__ && 2 < __GNUC__ + (7 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_UNUSED __attribute__ ((__unused__))
 # else
-#  define _Noreturn YY_ATTRIBUTE ((__noreturn__))
+#  define YY_ATTRIBUTE_UNUSED
 # endif
 #endif
 
 /* Suppress unused-variable warnings by "using" E.  */
 #if ! defined lint || defined __GNUC__
-# define YYUSE(E) ((void) (E))
+# define YY_USE(E) ((void) (E))
 #else
-# define YYUSE(E) /* empty */
+# define YY_USE(E) /* empty */
 #endif
 
-#if defined __GNUC__ && 407 <= __GNUC__ * 100 + __GNUC_MINOR__
 /* Suppress an incorrect diagnostic about yylval being uninitialized.  */
-# define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN \
-    _Pragma ("GCC diagnostic push") \
-    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")\
+#if defined __GNUC__ && ! defined __ICC && 406 <= __GNUC__ * 100 + __GNUC_MINOR__
+# if __GNUC__ * 100 + __GNUC_MINOR__ < 407
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")
+# else
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")              \
     _Pragma ("GCC diagnostic ignored \"-Wmaybe-uninitialized\"")
-# define YY_IGNORE_MAYBE_UNINITIALIZED_END \
+# endif
+# define YY_IGNORE_MAYBE_UNINITIALIZED_END      \
     _Pragma ("GCC diagnostic pop")
 #else
 # define YY_INITIAL_VALUE(Value) Value
@@ -571,8 +651,22 @@ typedef short int yytype_int16;
 # define YY_INITIAL_VALUE(Value) /* Nothing. */
 #endif
 
+#if defined __cplusplus && defined __GNUC__ && ! defined __ICC && 6 <= __GNUC__
+# define YY_IGNORE_USELESS_CAST_BEGIN                          \
+    _Pragma ("GCC diagnostic push")                            \
+    _Pragma ("GCC diagnostic ignored \"-Wuseless-cast\"")
+# define YY_IGNORE_USELESS_CAST_END            \
+    _Pragma ("GCC diagnostic pop")
+#endif
+#ifndef YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_END
+#endif
+
+
+#define YY_ASSERT(E) ((void) (0 && (E)))
 
-#if ! defined yyoverflow || YYERROR_VERBOSE
+#if 1
 
 /* The parser invokes alloca or malloc; define the necessary symbols.  */
 
@@ -637,8 +731,7 @@ void free (void *); /* INFRINGES ON USER NAME SPACE */
 #   endif
 #  endif
 # endif
-#endif /* ! defined yyoverflow || YYERROR_VERBOSE */
-
+#endif /* 1 */
 
 #if (! defined yyoverflow \
      && (! defined __cplusplus \
@@ -648,18 +741,19 @@ void free (void *); /* INFRINGES ON USER NAME SPACE */
 /* A type that is properly aligned for any stack member.  */
 union yyalloc
 {
-  yytype_int16 yyss_alloc;
+  yy_state_t yyss_alloc;
   YYSTYPE yyvs_alloc;
   YYLTYPE yyls_alloc;
 };
 
 /* The size of the maximum gap between one aligned stack and the next.  */
-# define YYSTACK_GAP_MAXIMUM (sizeof (union yyalloc) - 1)
+# define YYSTACK_GAP_MAXIMUM (YYSIZEOF (union yyalloc) - 1)
 
 /* The size of an array large to enough to hold all stacks, each with
    N elements.  */
 # define YYSTACK_BYTES(N) \
-     ((N) * (sizeof (yytype_int16) + sizeof (YYSTYPE) + sizeof (YYLTYPE)) \
+     ((N) * (YYSIZEOF (yy_state_t) + YYSIZEOF (YYSTYPE) \
+             + YYSIZEOF (YYLTYPE)) \
       + 2 * YYSTACK_GAP_MAXIMUM)
 
 # define YYCOPY_NEEDED 1
@@ -672,11 +766,11 @@ union yyalloc
 # define YYSTACK_RELOCATE(Stack_alloc, Stack)                           \
     do                                                                  \
       {                                                                 \
-        YYSIZE_T yynewbytes;                                            \
+        YYPTRDIFF_T yynewbytes;                                         \
         YYCOPY (&yyptr->Stack_alloc, Stack, yysize);                    \
         Stack = &yyptr->Stack_alloc;                                    \
-        yynewbytes = yystacksize * sizeof (*Stack) + YYSTACK_GAP_MAXIMUM; \
-        yyptr += yynewbytes / sizeof (*yyptr);                          \
+        yynewbytes = yystacksize * YYSIZEOF (*Stack) + YYSTACK_GAP_MAXIMUM; \
+        yyptr += yynewbytes / YYSIZEOF (*yyptr);                        \
       }                                                                 \
     while (0)
 
@@ -688,12 +782,12 @@ union yyalloc
 # ifndef YYCOPY
 #  if defined __GNUC__ && 1 < __GNUC__
 #   define YYCOPY(Dst, Src, Count) \
-      __builtin_memcpy (Dst, Src, (Count) * sizeof (*(Src)))
+      __builtin_memcpy (Dst, Src, YY_CAST (YYSIZE_T, (Count)) * sizeof (*(Src)))
 #  else
 #   define YYCOPY(Dst, Src, Count)              \
       do                                        \
         {                                       \
-          YYSIZE_T yyi;                         \
+          YYPTRDIFF_T yyi;                      \
           for (yyi = 0; yyi < (Count); yyi++)   \
             (Dst)[yyi] = (Src)[yyi];            \
         }                                       \
@@ -705,10 +799,10 @@ union yyalloc
 /* YYFINAL -- State number of the termination state.  */
 #define YYFINAL  69
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   856
+#define YYLAST   21132
 
 /* YYNTOKENS -- Number of terminals.  */
-#define YYNTOKENS  199
+#define YYNTOKENS  200
 /* YYNNTS -- Number of nonterminals.  */
 #define YYNNTS  136
 /* YYNRULES -- Number of rules.  */
@@ -716,28 +810,31 @@ union yyalloc
 /* YYNSTATES -- Number of states.  */
 #define YYNSTATES  656
 
-/* YYTRANSLATE[YYX] -- Symbol number corresponding to YYX as returned
-   by yylex, with out-of-bounds checking.  */
-#define YYUNDEFTOK  2
-#define YYMAXUTOK   436
+/* YYMAXUTOK -- Last valid token kind.  */
+#define YYMAXUTOK   437
+
 
-#define YYTRANSLATE(YYX)                                                \
-  ((unsigned int) (YYX) <= YYMAXUTOK ? yytranslate[YYX] : YYUNDEFTOK)
+/* YYTRANSLATE(TOKEN-NUM) -- Symbol number corresponding to TOKEN-NUM
+   as returned by yylex, with out-of-bounds checking.  */
+#define YYTRANSLATE(YYX)                                \
+  (0 <= (YYX) && (YYX) <= YYMAXUTOK                     \
+   ? YY_CAST (yysymbol_kind_t, yytranslate[YYX])        \
+   : YYSYMBOL_YYUNDEF)
 
 /* YYTRANSLATE[TOKEN-NUM] -- Symbol number corresponding to TOKEN-NUM
-   as returned by yylex, without out-of-bounds checking.  */
+   as returned by yylex.  */
 static const yytype_uint8 yytranslate[] =
 {
        0,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
-       2,     2,     2,     2,     2,     2,     2,   188,     2,     2,
-     193,   194,   186,   184,   197,   185,   195,   187,     2,     2,
-       2,     2,     2,     2,     2,     2,     2,     2,     2,   196,
-     177,   174,   178,   198,     2,     2,     2,     2,     2,     2,
+       2,     2,     2,     2,     2,     2,     2,   189,     2,     2,
+     194,   195,   187,   185,   198,   186,   196,   188,     2,     2,
+       2,     2,     2,     2,     2,     2,     2,     2,     2,   197,
+     178,   175,   179,   199,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
-       2,   191,     2,   192,   189,     2,     2,     2,     2,     2,
+       2,   192,     2,   193,   190,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
@@ -770,93 +867,101 @@ static const yytype_uint8 yytranslate[] =
      135,   136,   137,   138,   139,   140,   141,   142,   143,   144,
      145,   146,   147,   148,   149,   150,   151,   152,   153,   154,
      155,   156,   157,   158,   159,   160,   161,   162,   163,   164,
-     165,   166,   167,   168,   169,   170,   171,   172,   173,   175,
-     176,   179,   180,   181,   182,   183,   190
+     165,   166,   167,   168,   169,   170,   171,   172,   173,   174,
+     176,   177,   180,   181,   182,   183,   184,   191
 };
 
 #if HSQL_DEBUG
-  /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
-static const yytype_uint16 yyrline[] =
+/* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
+static const yytype_int16 yyrline[] =
 {
-       0,   343,   343,   362,   368,   375,   379,   383,   384,   385,
-     387,   388,   389,   390,   391,   392,   393,   394,   395,   396,
-     402,   403,   405,   409,   414,   418,   428,   429,   430,   432,
-     432,   438,   444,   446,   450,   462,   468,   485,   500,   502,
-     503,   504,   506,   520,   524,   534,   538,   562,   570,   583,
-     590,   605,   625,   626,   631,   642,   655,   667,   674,   681,
-     690,   691,   693,   697,   702,   703,   705,   713,   714,   715,
-     716,   717,   718,   719,   723,   724,   725,   726,   727,   728,
-     729,   730,   731,   732,   733,   735,   736,   738,   739,   740,
-     742,   743,   745,   749,   753,   758,   766,   767,   768,   769,
-     771,   772,   773,   775,   783,   789,   795,   801,   807,   808,
-     815,   821,   823,   833,   840,   851,   858,   866,   867,   874,
-     881,   885,   890,   900,   904,   908,   920,   920,   922,   923,
-     932,   933,   935,   949,   961,   966,   970,   974,   979,   980,
-     982,   992,   993,   995,   997,   998,  1000,  1002,  1003,  1005,
-    1010,  1012,  1013,  1015,  1016,  1018,  1022,  1027,  1029,  1030,
-    1031,  1033,  1034,  1056,  1057,  1059,  1060,  1061,  1062,  1063,
-    1064,  1069,  1073,  1079,  1080,  1082,  1086,  1091,  1091,  1095,
-    1103,  1104,  1106,  1115,  1115,  1115,  1115,  1115,  1117,  1118,
-    1118,  1118,  1118,  1118,  1118,  1118,  1118,  1119,  1119,  1123,
-    1123,  1125,  1126,  1127,  1128,  1129,  1131,  1131,  1132,  1133,
-    1134,  1135,  1136,  1137,  1138,  1139,  1140,  1142,  1143,  1145,
-    1146,  1147,  1148,  1152,  1153,  1154,  1155,  1157,  1158,  1160,
-    1161,  1163,  1164,  1165,  1166,  1167,  1168,  1169,  1173,  1174,
-    1175,  1176,  1180,  1181,  1183,  1184,  1189,  1190,  1191,  1195,
-    1196,  1197,  1199,  1200,  1201,  1202,  1203,  1205,  1207,  1209,
-    1210,  1211,  1212,  1213,  1214,  1216,  1217,  1218,  1219,  1220,
-    1221,  1223,  1223,  1225,  1227,  1229,  1231,  1232,  1233,  1234,
-    1236,  1236,  1236,  1236,  1236,  1236,  1236,  1238,  1240,  1241,
-    1243,  1244,  1246,  1248,  1250,  1261,  1262,  1273,  1305,  1314,
-    1314,  1321,  1321,  1323,  1323,  1330,  1334,  1339,  1347,  1353,
-    1357,  1362,  1363,  1365,  1365,  1367,  1367,  1369,  1370,  1372,
-    1372,  1378,  1379,  1381,  1385,  1390,  1396,  1403,  1404,  1405,
-    1406,  1408,  1409,  1410,  1416,  1416,  1418,  1420,  1424,  1429,
-    1439,  1446,  1454,  1463,  1464,  1465,  1466,  1467,  1468,  1469,
-    1470,  1471,  1472,  1474,  1480,  1480,  1483,  1487
+       0,   351,   351,   370,   376,   383,   387,   391,   392,   393,
+     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
+     410,   411,   413,   417,   422,   426,   436,   437,   438,   440,
+     440,   446,   452,   454,   458,   470,   476,   493,   508,   510,
+     511,   512,   514,   528,   532,   542,   546,   570,   578,   591,
+     598,   613,   633,   634,   639,   650,   666,   678,   685,   693,
+     702,   703,   705,   709,   714,   715,   717,   728,   729,   730,
+     731,   732,   733,   734,   738,   739,   740,   741,   742,   743,
+     744,   745,   746,   747,   748,   750,   751,   753,   754,   755,
+     757,   758,   760,   764,   768,   773,   781,   782,   783,   784,
+     786,   787,   788,   790,   798,   804,   810,   816,   822,   823,
+     830,   836,   838,   848,   855,   866,   873,   881,   882,   889,
+     896,   900,   905,   915,   919,   923,   935,   935,   937,   938,
+     947,   948,   950,   964,   976,   981,   985,   989,   994,   995,
+     997,  1007,  1008,  1010,  1012,  1013,  1015,  1017,  1018,  1020,
+    1025,  1027,  1028,  1030,  1031,  1033,  1037,  1042,  1044,  1045,
+    1046,  1048,  1049,  1071,  1072,  1074,  1075,  1076,  1077,  1078,
+    1079,  1084,  1088,  1094,  1095,  1097,  1101,  1106,  1106,  1110,
+    1118,  1119,  1121,  1130,  1130,  1130,  1130,  1130,  1132,  1133,
+    1133,  1133,  1133,  1133,  1133,  1133,  1133,  1134,  1134,  1138,
+    1138,  1140,  1141,  1142,  1143,  1144,  1146,  1146,  1147,  1148,
+    1149,  1150,  1151,  1152,  1153,  1154,  1155,  1157,  1158,  1160,
+    1161,  1162,  1163,  1167,  1168,  1169,  1170,  1172,  1173,  1175,
+    1176,  1178,  1179,  1180,  1181,  1182,  1183,  1184,  1188,  1189,
+    1190,  1191,  1195,  1196,  1198,  1199,  1204,  1205,  1206,  1210,
+    1211,  1212,  1214,  1215,  1216,  1217,  1218,  1220,  1222,  1224,
+    1225,  1226,  1227,  1228,  1229,  1231,  1232,  1233,  1234,  1235,
+    1236,  1238,  1238,  1240,  1242,  1247,  1249,  1250,  1251,  1252,
+    1254,  1254,  1254,  1254,  1254,  1254,  1254,  1256,  1258,  1259,
+    1261,  1262,  1264,  1266,  1268,  1279,  1280,  1293,  1327,  1336,
+    1336,  1343,  1343,  1345,  1345,  1352,  1356,  1361,  1369,  1375,
+    1379,  1384,  1385,  1387,  1387,  1389,  1389,  1391,  1392,  1394,
+    1394,  1400,  1401,  1403,  1407,  1412,  1418,  1425,  1426,  1427,
+    1428,  1430,  1431,  1432,  1438,  1438,  1440,  1442,  1446,  1451,
+    1461,  1468,  1476,  1485,  1486,  1487,  1488,  1489,  1490,  1491,
+    1492,  1493,  1494,  1496,  1502,  1502,  1505,  1509
 };
 #endif
 
-#if HSQL_DEBUG || YYERROR_VERBOSE || 1
+/** Accessing symbol of state STATE.  */
+#define YY_ACCESSING_SYMBOL(State) YY_CAST (yysymbol_kind_t, yystos[State])
+
+#if 1
+/* The user-facing name of the symbol whose (internal) number is
+   YYSYMBOL.  No bounds checking.  */
+static const char *yysymbol_name (yysymbol_kind_t yysymbol) YY_ATTRIBUTE_UNUSED;
+
 /* YYTNAME[SYMBOL-NUM] -- String name of the symbol SYMBOL-NUM.
    First, the terminals, then, starting at YYNTOKENS, nonterminals.  */
 static const char *const yytname[] =
 {
-  "$end", "error", "$undefined", "IDENTIFIER", "STRING", "FLOATVAL",
-  "INTVAL", "DEALLOCATE", "PARAMETERS", "INTERSECT", "TEMPORARY",
-  "TIMESTAMP", "DISTINCT", "NVARCHAR", "RESTRICT", "TRUNCATE", "ANALYZE",
-  "BETWEEN", "CASCADE", "COLUMNS", "CONTROL", "DEFAULT", "EXECUTE",
-  "EXPLAIN", "ENCODING", "INTEGER", "NATURAL", "PREPARE", "SCHEMAS",
-  "CHARACTER_VARYING", "REAL", "DECIMAL", "SMALLINT", "BIGINT", "SPATIAL",
-  "VARCHAR", "VIRTUAL", "DESCRIBE", "BEFORE", "COLUMN", "CREATE", "DELETE",
-  "DIRECT", "DOUBLE", "ESCAPE", "EXCEPT", "EXISTS", "EXTRACT", "CAST",
-  "FORMAT", "GLOBAL", "HAVING", "IMPORT", "INSERT", "ISNULL", "OFFSET",
-  "RENAME", "SCHEMA", "SELECT", "SORTED", "TABLES", "UNLOAD", "UPDATE",
-  "VALUES", "AFTER", "ALTER", "CROSS", "DELTA", "FLOAT", "GROUP", "INDEX",
-  "INNER", "LIMIT", "LOCAL", "MERGE", "MINUS", "ORDER", "OVER", "OUTER",
-  "RIGHT", "TABLE", "UNION", "USING", "WHERE", "CALL", "CASE", "CHAR",
-  "COPY", "DATE", "DATETIME", "DESC", "DROP", "ELSE", "FILE", "FROM",
-  "FULL", "HASH", "HINT", "INTO", "JOIN", "LEFT", "LIKE", "LOAD", "LONG",
-  "NULL", "PARTITION", "PLAN", "SHOW", "TEXT", "THEN", "TIME", "VIEW",
-  "WHEN", "WITH", "ADD", "ALL", "AND", "ASC", "END", "FOR", "INT", "NOT",
-  "OFF", "SET", "TOP", "AS", "BY", "IF", "IN", "IS", "OF", "ON", "OR",
-  "TO", "NO", "ARRAY", "CONCAT", "ILIKE", "SECOND", "MINUTE", "HOUR",
-  "DAY", "MONTH", "YEAR", "SECONDS", "MINUTES", "HOURS", "DAYS", "MONTHS",
-  "YEARS", "INTERVAL", "TRUE", "FALSE", "BOOLEAN", "TRANSACTION", "BEGIN",
-  "COMMIT", "ROLLBACK", "NOWAIT", "SKIP", "LOCKED", "SHARE", "RANGE",
-  "ROWS", "GROUPS", "UNBOUNDED", "FOLLOWING", "PRECEDING", "CURRENT_ROW",
-  "UNIQUE", "PRIMARY", "FOREIGN", "KEY", "REFERENCES", "'='", "EQUALS",
-  "NOTEQUALS", "'<'", "'>'", "LESS", "GREATER", "LESSEQ", "GREATEREQ",
-  "NOTNULL", "'+'", "'-'", "'*'", "'/'", "'%'", "'^'", "UMINUS", "'['",
-  "']'", "'('", "')'", "'.'", "';'", "','", "'?'", "$accept", "input",
-  "statement_list", "statement", "preparable_statement", "opt_hints",
-  "hint_list", "hint", "transaction_statement", "opt_transaction_keyword",
-  "prepare_statement", "prepare_target_query", "execute_statement",
-  "import_statement", "file_type", "file_path",
-  "opt_import_export_options", "import_export_options", "csv_option",
-  "export_statement", "show_statement", "create_statement",
-  "opt_not_exists", "table_elem_commalist", "table_elem", "column_def",
-  "column_type", "opt_time_precision", "opt_decimal_specification",
+  "\"end of file\"", "error", "\"invalid token\"", "IDENTIFIER", "STRING",
+  "FLOATVAL", "INTVAL", "DEALLOCATE", "PARAMETERS", "INTERSECT",
+  "TEMPORARY", "TIMESTAMP", "DISTINCT", "NVARCHAR", "RESTRICT", "TRUNCATE",
+  "ANALYZE", "BETWEEN", "CASCADE", "COLUMNS", "CONTROL", "DEFAULT",
+  "EXECUTE", "EXPLAIN", "ENCODING", "INTEGER", "NATURAL", "PREPARE",
+  "SCHEMAS", "CHARACTER_VARYING", "REAL", "DECIMAL", "SMALLINT", "BIGINT",
+  "SPATIAL", "VARCHAR", "VIRTUAL", "DESCRIBE", "BEFORE", "COLUMN",
+  "CREATE", "DELETE", "DIRECT", "DOUBLE", "ESCAPE", "EXCEPT", "EXISTS",
+  "EXTRACT", "CAST", "FORMAT", "GLOBAL", "HAVING", "IMPORT", "INSERT",
+  "ISNULL", "OFFSET", "RENAME", "SCHEMA", "SELECT", "SORTED", "TABLES",
+  "UNLOAD", "UPDATE", "VALUES", "AFTER", "ALTER", "CROSS", "DELTA",
+  "FLOAT", "GROUP", "INDEX", "INNER", "LIMIT", "LOCAL", "MERGE", "MINUS",
+  "ORDER", "OVER", "OUTER", "RIGHT", "TABLE", "UNION", "USING", "WHERE",
+  "CALL", "CASE", "CHAR", "COPY", "DATE", "DATETIME", "DESC", "DROP",
+  "ELSE", "FILE", "FROM", "FULL", "HASH", "HINT", "INTO", "JOIN", "LEFT",
+  "LIKE", "LOAD", "LONG", "NULL", "PARTITION", "PLAN", "SHOW", "TEXT",
+  "THEN", "TIME", "VIEW", "WHEN", "WITH", "ADD", "ALL", "AND", "ASC",
+  "END", "FOR", "INT", "NOT", "OFF", "SET", "TOP", "AS", "BY", "IF", "IN",
+  "IS", "OF", "ON", "OR", "TO", "NO", "ARRAY", "CONCAT", "ILIKE", "SECOND",
+  "MINUTE", "HOUR", "DAY", "MONTH", "YEAR", "SECONDS", "MINUTES", "HOURS",
+  "DAYS", "MONTHS", "YEARS", "INTERVAL", "TRUE", "FALSE", "BOOLEAN",
+  "TRANSACTION", "BEGIN", "COMMIT", "ROLLBACK", "NOWAIT", "SKIP", "LOCKED",
+  "SHARE", "RANGE", "ROWS", "GROUPS", "UNBOUNDED", "FOLLOWING",
+  "PRECEDING", "CURRENT_ROW", "UNIQUE", "PRIMARY", "FOREIGN", "KEY",
+  "REFERENCES", "INVALID", "'='", "EQUALS", "NOTEQUALS", "'<'", "'>'",
+  "LESS", "GREATER", "LESSEQ", "GREATEREQ", "NOTNULL", "'+'", "'-'", "'*'",
+  "'/'", "'%'", "'^'", "UMINUS", "'['", "']'", "'('", "')'", "'.'", "';'",
+  "','", "'?'", "$accept", "input", "statement_list", "statement",
+  "preparable_statement", "opt_hints", "hint_list", "hint",
+  "transaction_statement", "opt_transaction_keyword", "prepare_statement",
+  "prepare_target_query", "execute_statement", "import_statement",
+  "file_type", "file_path", "opt_import_export_options",
+  "import_export_options", "csv_option", "export_statement",
+  "show_statement", "create_statement", "opt_not_exists",
+  "table_elem_commalist", "table_elem", "column_def", "column_type",
+  "opt_time_precision", "opt_decimal_specification",
   "opt_column_constraints", "column_constraints", "column_constraint",
   "table_constraint", "references_spec", "drop_statement", "opt_exists",
   "alter_statement", "alter_action", "drop_action", "delete_statement",
@@ -887,214 +992,192 @@ static const char *const yytname[] =
   "with_description_list", "with_description", "join_clause",
   "opt_join_type", "join_condition", "opt_semicolon", "ident_commalist", YY_NULLPTR
 };
-#endif
 
-# ifdef YYPRINT
-/* YYTOKNUM[NUM] -- (External) token number corresponding to the
-   (internal) symbol number NUM (which must be that of a token).  */
-static const yytype_uint16 yytoknum[] =
+static const char *
+yysymbol_name (yysymbol_kind_t yysymbol)
 {
-       0,   256,   257,   258,   259,   260,   261,   262,   263,   264,
-     265,   266,   267,   268,   269,   270,   271,   272,   273,   274,
-     275,   276,   277,   278,   279,   280,   281,   282,   283,   284,
-     285,   286,   287,   288,   289,   290,   291,   292,   293,   294,
-     295,   296,   297,   298,   299,   300,   301,   302,   303,   304,
-     305,   306,   307,   308,   309,   310,   311,   312,   313,   314,
-     315,   316,   317,   318,   319,   320,   321,   322,   323,   324,
-     325,   326,   327,   328,   329,   330,   331,   332,   333,   334,
-     335,   336,   337,   338,   339,   340,   341,   342,   343,   344,
-     345,   346,   347,   348,   349,   350,   351,   352,   353,   354,
-     355,   356,   357,   358,   359,   360,   361,   362,   363,   364,
-     365,   366,   367,   368,   369,   370,   371,   372,   373,   374,
-     375,   376,   377,   378,   379,   380,   381,   382,   383,   384,
-     385,   386,   387,   388,   389,   390,   391,   392,   393,   394,
-     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
-     405,   406,   407,   408,   409,   410,   411,   412,   413,   414,
-     415,   416,   417,   418,   419,   420,   421,   422,   423,   424,
-     425,   426,   427,   428,    61,   429,   430,    60,    62,   431,
-     432,   433,   434,   435,    43,    45,    42,    47,    37,    94,
-     436,    91,    93,    40,    41,    46,    59,    44,    63
-};
-# endif
+  return yytname[yysymbol];
+}
+#endif
 
-#define YYPACT_NINF -529
+#define YYPACT_NINF (-501)
 
-#define yypact_value_is_default(Yystate) \
-  (!!((Yystate) == (-529)))
+#define yypact_value_is_default(Yyn) \
+  ((Yyn) == YYPACT_NINF)
 
-#define YYTABLE_NINF -355
+#define YYTABLE_NINF (-358)
 
-#define yytable_value_is_error(Yytable_value) \
-  (!!((Yytable_value) == (-355)))
+#define yytable_value_is_error(Yyn) \
+  0
 
-  /* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
-     STATE-NUM.  */
+/* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
+   STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     595,    27,    65,    71,    99,    65,   113,    83,   137,   140,
-      65,   190,    21,   195,    37,   292,   120,   120,   120,   287,
-     103,  -529,   221,  -529,   221,  -529,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,  -529,  -529,  -529,   -26,  -529,   342,
-     166,  -529,   183,   313,  -529,   251,   251,   251,    65,   415,
-      65,   298,  -529,   297,   -26,   293,   -37,   297,   297,   297,
-      65,  -529,   309,   267,  -529,  -529,  -529,  -529,  -529,  -529,
-     578,  -529,   369,  -529,  -529,   350,   224,  -529,    35,  -529,
-     479,   353,   486,   374,   494,    65,    65,   418,  -529,   413,
-     314,   505,   464,    65,   315,   317,   508,   508,   508,   519,
-      65,    65,  -529,   332,   292,  -529,   333,   521,   518,  -529,
-    -529,  -529,   -26,   420,   410,   -26,    15,  -529,  -529,  -529,
-     707,   344,   535,  -529,   536,  -529,  -529,    45,  -529,   349,
-     347,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,   500,  -529,   416,   -15,   314,   363,
-    -529,   508,   547,   198,   380,   -38,  -529,  -529,   466,  -529,
-    -529,  -529,   -75,   -75,   -75,  -529,  -529,  -529,  -529,  -529,
-     552,  -529,  -529,  -529,   363,   483,  -529,  -529,   224,  -529,
-    -529,   363,   483,   363,   151,   443,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,
-    -529,   200,  -529,   248,  -529,  -529,  -529,   353,  -529,    65,
-     561,   454,    19,   441,   129,   375,   381,   382,   244,   367,
-     396,    59,  -529,   335,    69,   395,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,
-    -529,  -529,   490,  -529,    38,   397,  -529,   363,   505,  -529,
-     550,  -529,  -529,   398,   193,  -529,   418,  -529,   402,   180,
-    -529,   502,   400,  -529,    44,    15,   -26,   401,  -529,   -31,
-      15,    69,   544,    68,   106,  -529,   443,  -529,   476,  -529,
-    -529,   411,   510,  -529,   668,   414,   434,   436,   205,  -529,
-    -529,  -529,   454,     9,    36,   551,   248,   363,   363,   268,
-     -43,   419,    59,   609,   363,   217,   417,   -23,   363,   363,
-      59,  -529,    59,    24,   421,   -27,    59,    59,    59,    59,
-      59,    59,    59,    59,    59,    59,    59,    59,    59,    59,
-      59,   521,    65,  -529,   610,   353,    69,  -529,   297,   193,
-     612,   616,   415,   617,   222,  -529,  -529,   353,  -529,   552,
-      22,   418,  -529,   363,  -529,   620,  -529,  -529,  -529,  -529,
-     363,  -529,  -529,   621,   443,   363,   363,  -529,   455,  -529,
-     465,   -70,  -529,   668,   547,   508,  -529,  -529,   432,  -529,
-     435,  -529,  -529,   440,  -529,  -529,   444,  -529,  -529,  -529,
-    -529,   445,  -529,  -529,   139,   547,   448,   449,  -529,    19,
-    -529,   557,   363,   451,  -529,   452,   555,   -13,   201,   167,
-     363,   363,  -529,   551,   528,   119,  -529,  -529,  -529,   529,
-     538,   638,    59,   457,   335,  -529,   548,   460,   638,   638,
-     638,   638,   653,   653,   653,   653,   217,   217,    92,    92,
-      92,   -96,   461,  -529,  -529,   228,   652,   234,  -529,  -529,
-    -529,  -529,  -529,   227,   239,  -529,   454,  -529,    87,  -529,
-     459,  -529,    39,  -529,   589,  -529,  -529,  -529,   658,  -529,
-    -529,    69,    69,   600,  -529,   547,  -529,   504,  -529,   472,
-     241,  -529,   662,   664,  -529,   665,   666,   667,  -529,  -529,
-     572,  -529,   506,    65,  -529,   139,  -529,  -529,   246,   547,
-     547,  -529,   484,  -529,   253,    14,  -529,   363,   668,   363,
-     363,  -529,   182,   211,   487,  -529,    59,   638,   335,   489,
-     264,  -529,  -529,  -529,  -529,  -529,   676,   415,  -529,  -529,
-     493,   585,  -529,  -529,  -529,   611,   618,   626,   591,    22,
-     685,  -529,  -529,  -529,   568,  -529,  -529,  -529,   -77,  -529,
-    -529,  -529,   501,   265,   511,   512,   515,  -529,  -529,   314,
-    -529,  -529,  -529,   266,   271,   613,   557,   557,   363,   121,
-     523,    69,   203,  -529,   363,  -529,   609,   527,   278,  -529,
-    -529,  -529,  -529,    39,    22,  -529,  -529,  -529,    22,   247,
-     539,   363,  -529,  -529,  -529,   722,  -529,  -529,  -529,  -529,
-    -529,   558,   614,   483,  -529,  -529,   279,  -529,  -529,  -529,
-      69,  -529,  -529,  -529,  -529,   463,   547,   -22,   543,  -529,
-     363,   330,   557,   549,   363,   284,   363,  -529,  -529,   400,
-    -529,  -529,  -529,   553,    61,  -529,   547,    69,  -529,  -529,
-      69,  -529,    25,    55,   188,  -529,  -529,   286,  -529,  -529,
-     625,  -529,  -529,  -529,    55,  -529
+   20938,    15,    58,    62,    84,    58,    -1,   -31,   -27,   -13,
+      58,    46,    21,   535,     2,   284,   111,   111,   111,   325,
+      44,    53,    40,    51,    40,   297,    56,    70,    81,   572,
+     584,   596,   782,   783,   786,   787,   805,   124,   435,   436,
+   18521,   851,   211,   302,    94,   471,    65,    65,    58,   479,
+      58,   363,   382,   306,   124,   201,   -20,   306,   306,   306,
+      58,   106,   402,   237,   303,   863,   902,   906,   909,  -501,
+   20876,   545,   458,   109,   115, 20262,   107,    64,   982,   962,
+     578,  1546,   563,   468,    42,    58,    58,   393,   678,   498,
+     210,   636,   601,    58,   460,   469,   649,   649,   649,   665,
+      58,    58,   120,   520,   284,   144,   541,   725, 20484,   345,
+     670,   685,   124,   810,   620,   124,   593, 18629,  1339,  1530,
+     371,   570,   770,  1721,   802,  1912,  2103,    54,  2294,   602,
+     192,   226,   739,   724,  2485,  2676,  2867,  3058,  3249,  3440,
+    3631,  3822,   965,   974,   719,   679,   684,   564,   -97, 20638,
+     989,   649,   835,   383,   669,    82,   117,   837,   765, 16153,
+   16451,   331,   428,   438,   428,  1013,  1043,  1076,   376,   494,
+     843, 20283, 20502, 20662, 20638,    47,   523,   594,  1173,   609,
+     619, 20638,   708, 20638, 19386,    50,  4013,  4204,  4395,  4586,
+    4777,  4968,  5159,  5350,  5541,  5732,  5923,  6114,  6305,  6496,
+    6687,  1394,  6878,   562,   861,   924,  1091,  1549,   228,    58,
+     877,   409,   167,   758,   753,   693,   704,   710, 19602, 20715,
+     729, 20775,  7069, 20512, 16966,  7260,  7451,  7642,  7833, 16958,
+   17088,  8024, 17218,  8215,  8406,  8597,  8788,  8979,  9170, 17348,
+    9361,  9552,   813,   186,   956,   750,  1092, 20638,   636,  1093,
+     914,  1104,  1107,   769,   793,   156,    35,   171,  1052,   972,
+    1001, 20118, 20083, 19849, 18876,   537,   124,   413,   423,   194,
+     593,    77,   913,   775,   550,   524,    86,   597,   842,  9743,
+    1113,   811,   894,  1153,  2025,   818,   836,   844,  1114,  1151,
+    1168,  1176,   409, 20390,    23,   959,  1424, 20638, 20638,   950,
+     883,   831, 20775,  9934, 20638, 10125,   845,   -94, 20638, 20638,
+   20775, 10316, 20775,   472,   847,   -29, 20775, 20775, 20775, 20775,
+   20775, 20775, 20775, 20775, 20775, 20775, 20775, 20775, 20775, 20775,
+   20775,   725,    58,  1570,  1047,  1549,   332,   172,   306,   793,
+    1051,  1053,   479,  1063,  1187,  1191,   185,  1549,   189,   843,
+      49, 20160, 20180, 20638,   157,  1071, 19924, 19981,   660,   901,
+   20638,   203,   214,  1181,    50, 20638, 20638,   841,   918,  1072,
+     925,  1157,   623,  2025,   835,   649,  1419,  1610,   911,  1757,
+    1388,  1770,  1801,   915,  1948,  1957,   930,  2019,  2038,  2056,
+    2139,  1564,  2183,  2210,  2229,   835,   931,   938,  1164,   167,
+    1172,   952, 20638,  1143, 10507,   923,  1026,   761,   -43,  1056,
+   20638, 20638, 10698,   959,  1035,   408, 10889, 11080, 17478, 17608,
+    2140, 16064, 20775,   993, 20512, 11271,  1088, 11462, 16213, 16362,
+   16511, 16660, 15440, 15596, 15752, 15908, 11653, 11844, 12035, 12226,
+   12417, 12608,  1008,   198,   260,  1193,  1204,  1197,  1221,  1229,
+    1230,  1237,    93,  1109,  1252,  1271,   409, 20245, 19761, 18977,
+     977, 19052, 18735, 19113, 15542, 20021, 20029,   604,  1205,   614,
+     715,   343,   981,  1141,  1165,   835,   814,  1067,   926,  1016,
+    1286,  1180,  1210,  1217,  2247,  1223,  1233,  1245,  2270,  2328,
+    1137,  2330,  1085,    58,  1288,  2340,  2346,  2401,  1295,   835,
+     835,  1301,  1064, 12799,  1309, 20416, 17738, 20638,  2025, 20638,
+   20638, 12990,   878,   707,  1068, 13181, 20775, 16809, 20512,  1070,
+    1310, 13372, 13563,  1183,  1190,    95,  1277,   479,  1315,  1340,
+    1087,  1192,  1198,  1199,  1203,   -21,   321,   552,  1211,    49,
+    1296, 19188, 19268, 19329,  1208,  1560,   795,  1283,   385,   966,
+    1373,  1200,  1160,  1375,  1162,  1169,  1177,  2438,  2461,  1583,
+    2519,  2521,  1379,  1381,  1392,  1325,   952,   952, 20638,   -36,
+    1178,  1235,  1116, 13754, 20638, 17868, 15249,  1186,  1400, 17998,
+   18128,  1405,  1409, 18735,    49,  1260,  1305,  1307,    49, 19836,
+   18868, 20638,   998,  2531,  2537,  1406,  2592,  2629,  2652,  2710,
+    1421,  1241,  1300,  1282, 13945, 14136,  1423, 14327, 14518, 14709,
+    1291, 18258, 18388, 19404, 19484,  1854,   835,   103,  1242,  1428,
+   20638,   697,   952,  1249, 20638,  1440, 20638,  1751,  2712,  1299,
+     174,   755,   820,  1254,  1149, 14900,   835, 18774, 19545, 19620,
+   15301, 15091,   240,   181,   506,   -87,  1258,  1459,   235,   256,
+    1320,   278,   286, 19700,   181,  1259
 };
 
-  /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
-     Performed when YYTABLE does not specify something else to do.  Zero
-     means the default is an error.  */
-static const yytype_uint16 yydefact[] =
+/* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
+   Performed when YYTABLE does not specify something else to do.  Zero
+   means the default is an error.  */
+static const yytype_int8 yydefact[] =
 {
-     335,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,    30,    30,    30,     0,
-     355,     3,    21,    19,    21,    18,     8,     9,     7,    11,
-      16,    17,    13,    14,    12,    15,    10,     0,   334,     0,
-     309,   114,    33,     0,    54,    61,    61,    61,     0,     0,
-       0,     0,   308,   109,     0,     0,     0,   109,   109,   109,
-       0,    52,     0,   336,   337,    29,    26,    28,    27,     1,
-     335,     2,     0,     6,     5,   164,   123,   124,   154,   106,
-       0,   174,     0,     0,   312,     0,     0,   148,    37,     0,
-     118,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,    53,     0,     0,     4,     0,     0,   142,   136,
-     137,   135,     0,   139,     0,     0,   170,   310,   287,   290,
-     292,     0,     0,   293,     0,   288,   289,     0,   298,     0,
-     173,   175,   177,   179,   280,   281,   282,   291,   283,   284,
-     285,   286,    32,    31,     0,   311,     0,     0,   118,     0,
-     113,     0,     0,     0,     0,   148,   120,   108,     0,   131,
-     130,    38,    41,    41,    41,   107,   104,   105,   339,   338,
-       0,   292,   163,   141,     0,   154,   127,   126,   128,   138,
-     134,     0,   154,     0,     0,   322,   259,   260,   261,   262,
-     263,   264,   265,   266,   267,   268,   269,   270,   271,   272,
-     295,     0,   294,   297,   180,   181,    34,     0,    60,     0,
-       0,   335,     0,     0,   276,     0,     0,     0,     0,     0,
-       0,     0,   278,     0,   147,   183,   190,   191,   192,   185,
-     187,   193,   186,   206,   194,   195,   196,   197,   189,   184,
-     199,   200,     0,   356,     0,     0,   116,     0,     0,   119,
-       0,   110,   111,     0,     0,    51,   148,    50,    24,     0,
-      22,   145,   143,   171,   320,   170,     0,   153,   155,   160,
-     170,   166,   168,   165,     0,   132,   321,   323,     0,   296,
-     176,     0,     0,    57,     0,     0,     0,     0,     0,    62,
-      64,    65,   335,   142,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   202,     0,   201,     0,     0,     0,     0,
-       0,   203,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   117,     0,     0,   122,   121,   109,     0,
-       0,     0,     0,     0,     0,    47,    36,     0,    20,     0,
-       0,   148,   144,     0,   318,     0,   319,   182,   125,   129,
-       0,   159,   158,   161,   322,     0,     0,   327,     0,   329,
-       0,   333,   324,     0,     0,     0,    83,    77,     0,    79,
-      89,    80,    67,     0,    74,    75,     0,    71,    72,    78,
-      81,    86,    76,    68,    91,     0,     0,     0,    56,     0,
-      59,   243,     0,   277,   279,     0,     0,     0,     0,     0,
-       0,     0,   225,     0,     0,     0,   198,   188,   217,   218,
-       0,   213,     0,     0,     0,   204,     0,   216,   215,   231,
-     232,   233,   234,   235,   236,   237,   208,   207,   210,   209,
-     211,   212,     0,    35,   357,     0,     0,     0,    48,    45,
-      43,    49,    40,     0,     0,    23,   335,   146,   299,   301,
-       0,   303,   316,   302,   150,   172,   317,   156,     0,   157,
-     133,   169,   167,     0,   330,     0,   332,     0,   325,     0,
-       0,    55,     0,     0,    73,     0,     0,     0,    82,    98,
-       0,    97,     0,     0,    66,    90,    92,    94,     0,     0,
-       0,    63,     0,   238,     0,   142,   229,     0,     0,     0,
-       0,   223,     0,     0,     0,   273,     0,   214,     0,     0,
-       0,   205,   274,   115,   112,    39,     0,     0,    46,    25,
-       0,     0,   351,   343,   349,   347,   350,   345,     0,     0,
-       0,   315,   307,   313,     0,   140,   162,   328,   333,   331,
-     178,    58,     0,     0,     0,     0,     0,    99,    96,   118,
-      93,    95,   101,     0,     0,   245,   243,   243,     0,     0,
-       0,   227,     0,   226,     0,   230,   275,     0,     0,   221,
-     219,    44,    42,   316,     0,   346,   348,   344,     0,   300,
-     317,     0,   326,    70,    88,     0,    84,    69,    85,   103,
-     100,     0,     0,   154,   239,   240,     0,   257,   258,   224,
-     228,   222,   220,   304,   340,   352,     0,   152,     0,   102,
-       0,   248,   243,     0,     0,     0,     0,   149,    87,   244,
-     249,   250,   251,     0,     0,   241,     0,   353,   341,   314,
-     151,   242,     0,     0,     0,   256,   246,     0,   255,   253,
-       0,   254,   252,   342,     0,   247
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     1,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0
 };
 
-  /* YYPGOTO[NTERM-NUM].  */
+/* YYPGOTO[NTERM-NUM].  */
 static const yytype_int16 yypgoto[] =
 {
-    -529,  -529,  -529,   673,  -529,   720,  -529,   399,  -529,   428,
-    -529,  -529,  -529,  -529,  -325,   -79,   290,   422,   296,  -529,
-    -529,  -529,   453,  -529,   354,  -529,  -338,  -529,  -529,  -529,
-    -529,   260,  -529,  -429,  -529,   -45,  -529,  -529,  -529,  -529,
-    -529,  -529,  -142,  -529,  -529,   514,  -202,   -87,  -529,   204,
-     -49,    -5,  -529,  -529,   -85,  -278,  -529,  -529,  -529,  -139,
-    -529,  -529,  -171,  -529,   403,  -529,  -529,  -529,   127,  -297,
-    -529,   -67,   559,   563,   405,  -147,  -188,  -529,  -529,  -529,
-    -529,  -529,  -529,   469,  -529,  -529,  -529,  -514,  -529,  -529,
-    -529,  -528,  -529,  -529,  -148,  -529,  -529,  -529,  -529,  -529,
-    -529,   -58,  -529,  -529,   632,  -106,  -529,  -529,   633,  -529,
-    -529,  -496,   181,  -529,  -529,  -529,    -2,  -529,  -529,   186,
-     509,  -529,   406,  -529,   496,  -529,   229,  -529,  -529,  -529,
-     675,  -529,  -529,  -529,  -529,  -354
+    -501,  -501,  -501,  1389,  -501,  1441,  -501,  1123,  -501,   330,
+    -501,  -501,  -501,  -501,  -326,   -79,   532,  1134,  1021,  -501,
+    -501,  -501,   683,  -501,  1080,  -501,  -341,  -501,  -501,  -501,
+    -501,   990,  -501,  -446,  -501,   -45,  -501,  -501,  -501,  -501,
+    -501,  -501,  -142,  -501,  -501,  1243,  -202,   -98,  -501,   821,
+     -49,   -53,  -501,  -501,   -85,  -278,  -501,  -501,  -501,   180,
+    -501,  -501,  -171,  -501,  1135,  -501,  -501,  -501,   354,  -297,
+    -501,  -292,  1293,  1311,  1158,  -147,  -188,  -501,  -501,  -501,
+    -501,  -501,  -501,  1207,  -501,  -501,  -501,    60,  -501,  -501,
+    -501,  -314,  -501,  -501,  -149,  -501,  -501,  -501,  -501,  -501,
+    -501,   -58,  -501,  -501,  1414,  -106,  -501,  -501,  1415,  -501,
+    -501,  -500,   935,  -501,  -501,  -501,    -2,  -501,  -501,   960,
+    1284,  -501,  1185,  -501,  1302,  -501,  1011,  -501,  -501,  -501,
+    1468,  -501,  -501,  -501,  -501,  -354
 };
 
-  /* YYDEFGOTO[NTERM-NUM].  */
+/* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int16 yydefgoto[] =
 {
-      -1,    19,    20,    21,    22,    73,   259,   260,    23,    66,
+       0,    19,    20,    21,    22,    73,   259,   260,    23,    66,
       24,   143,    25,    26,    89,   162,   255,   344,   345,    27,
       28,    29,    84,   288,   289,   290,   394,   488,   484,   494,
      495,   496,   291,   497,    30,    93,    31,   251,   252,    32,
@@ -1110,304 +1193,4360 @@ static const yytype_int16 yydefgoto[] =
       64,   463,   538,   638,    71,   244
 };
 
-  /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
-     positive, shift that token.  If negative, reduce the rule whose
-     number is the opposite.  If YYTABLE_NINF, syntax error.  */
+/* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
+   positive, shift that token.  If negative, reduce the rule whose
+   number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int16 yytable[] =
 {
       41,   172,   224,    44,   265,    95,   213,   415,    52,   283,
-      56,   270,    99,   100,   101,   402,   249,   450,   163,   164,
-     480,   173,   284,   133,    40,    40,   173,   178,   182,   626,
-     178,   303,    75,   305,   269,   479,   271,   273,   253,   403,
-     316,   498,   354,   589,   109,   149,    87,   354,    90,   410,
-     119,   120,   604,   605,    39,   279,    60,    97,   102,   361,
-     475,   642,   214,   118,   119,   120,   561,   642,    40,   411,
-     183,   299,   242,   115,    42,   412,   307,   425,   643,   210,
-     110,   476,   477,   147,   148,   308,   362,   184,   476,   477,
-     400,   158,   615,   308,   426,   331,    98,    61,   166,   167,
-     336,   309,    43,   308,   246,   504,   216,   217,   635,   309,
-     211,   114,   508,   531,   303,   650,   111,   346,   254,   309,
-     334,   548,   420,   366,   421,   422,   655,   520,   427,   428,
+      56,   270,    99,   100,   101,   402,   450,   182,   163,   164,
+     480,    60,   308,   133,    40,   115,   403,   178,  -118,  -256,
+     178,   303,   479,   305,   269,  -148,   271,   273,   309,   589,
+     -21,   498,    39,   445,  -355,   145,    87,  -154,    90,   561,
+    -322,   -19,    40,    -3,   279,   454,    -8,   585,   102,   119,
+     120,    40,    61,    48,  -124,    42,   509,    49,   -61,    45,
+      -9,   299,   242,   308,    97,   425,   307,  -166,  -347,    46,
+     308,    -7,  -148,   147,   148,    50,  -321,    43,   615,   309,
+     400,   158,   426,   -40,   -54,   -39,   309,   152,   166,   167,
+     336,   417,  -154,  -152,   246,   504,   -52,  -123,  -256,    -6,
+      47,   -30,  -152,    98,   303,    -5,   109,  -120,   149,  -154,
+     -53,   548,   420,   114,   421,   266,    53,   520,   427,   428,
      429,   430,   431,   432,   433,   434,   435,   436,   437,   438,
-     439,   440,   441,   133,   218,   563,   564,   122,   406,   133,
-     407,   408,   423,   532,   214,   118,   119,   120,   533,   248,
-     308,   418,   419,   123,   540,   534,   535,    54,   367,   355,
-     570,   417,   619,   266,   306,   353,   309,    48,   212,   359,
-     302,   178,   536,    45,   308,   308,  -352,   537,   285,   286,
-     287,   648,   649,    46,   220,   124,   340,   215,   216,   217,
-     309,   309,   582,   401,   118,   119,   120,   281,   567,   124,
-     125,   126,   464,   269,    54,   456,    55,   341,   471,   472,
-     644,   578,   404,   645,    47,   442,   644,   568,   316,   645,
-     340,    49,   333,   109,   517,   334,   218,   308,    50,   122,
-     368,    76,   342,   489,   221,   222,   405,   214,   118,   119,
-     120,   526,   223,   309,   530,   123,    75,   128,    94,   510,
-     490,   245,   625,   512,   513,    57,   272,   369,   445,   110,
-      53,   606,   219,   531,    65,    58,   527,   133,   370,   411,
-     454,   330,   647,   331,  -305,   511,   220,    69,   122,   133,
-     215,   216,   217,   446,   617,    62,   481,   343,   308,    70,
-     573,   124,   125,   126,   123,   111,    59,   168,   491,   492,
-     509,   515,   493,   532,   309,   607,   353,   308,   533,   308,
-     574,   609,   293,   629,   294,   534,   535,   308,   576,   218,
-     443,   343,   122,   309,    72,   309,   221,   222,   214,   118,
-     119,   120,   536,   309,   223,    79,  -352,   537,   123,   128,
-     124,   125,   126,   316,   651,   652,   298,   118,   119,   120,
-     569,    80,   571,   572,   514,   219,   214,   118,   119,   120,
-     214,   118,   119,   120,   348,   519,    81,   349,    83,   220,
-     298,   215,   216,   217,   308,   127,   186,   187,   188,   189,
-     190,   191,   358,    75,   124,   125,   126,   364,   128,   398,
-     309,   121,   399,   327,   328,   329,   330,    82,   331,   215,
-     216,   217,   310,   301,   216,   217,   452,   599,    88,   453,
-     218,    91,   523,   122,    92,   207,    96,   610,   525,   221,
-     222,   453,   621,   529,   103,   551,   207,   223,   334,   123,
-     562,   122,   128,   334,  -306,    67,    68,   566,   218,   311,
-     353,   122,   218,   256,   257,   122,   219,   123,   580,   594,
-     600,   353,   595,   334,   104,   601,   106,   123,   334,   577,
-     220,   123,   612,   622,   107,   353,   353,   637,   639,   640,
-     653,   334,   117,   334,   219,   124,   125,   126,   302,   531,
-     142,   559,   630,   631,   632,   144,   312,   145,   220,    85,
-      86,   149,   220,   124,   125,   126,   151,   152,   154,   159,
-     157,   160,   161,   124,   125,   126,   313,   124,   125,   126,
-     221,   222,   165,   314,   315,    54,   170,   171,   223,   532,
-     173,   316,   317,   128,   533,   179,   181,   201,   127,   202,
-     203,   534,   535,   206,   207,   623,   208,   209,   221,   222,
-     243,   128,   221,   222,   247,   258,   223,   250,   536,   114,
-     223,   128,   274,   537,   282,   128,   292,    15,   295,   318,
-     319,   320,   321,   322,   296,   297,   323,   324,  -354,   325,
-     326,   327,   328,   329,   330,     1,   331,   304,   332,   338,
-     335,   339,   311,     2,   624,   347,   350,   353,   360,   365,
-       3,   373,     1,   375,   374,     4,   396,   395,   397,    75,
-       2,   416,   413,   444,   424,     5,   448,     3,     6,     7,
-     449,   451,     4,   466,   468,   482,   474,   473,   483,   422,
-       8,     9,     5,   485,   502,     6,     7,   486,   487,   312,
-      10,   499,   500,    11,   505,   308,   506,     8,     9,   507,
-     518,   331,   521,   522,   516,   524,   539,    10,   544,   414,
-      11,   546,   547,   311,   549,    12,   550,   315,   552,    13,
-     553,   554,   555,   556,   316,   317,   557,   565,   558,   376,
-     581,   575,    12,   579,   584,    14,    13,   583,   590,   585,
-     588,    15,   311,   377,   591,   593,   586,   378,   379,   380,
-     381,   382,    14,   383,   587,   596,   597,   311,    15,   598,
-     312,   384,   318,   319,   320,   321,   322,   608,   602,   323,
-     324,   611,   325,   326,   327,   328,   329,   330,   618,   331,
-     414,   493,   616,    16,    17,    18,   385,   628,   315,  -355,
-     620,   654,   636,   105,    74,   316,   317,   641,   455,   528,
-      16,    17,    18,   501,   386,   560,   387,   388,   465,   204,
-     205,   447,   337,   467,   278,   614,   280,   315,   409,   613,
-     470,   389,   372,   356,   316,  -355,   390,   592,   391,   169,
-       0,     0,   315,   318,   319,   320,   321,   322,   392,   316,
-     323,   324,     0,   325,   326,   327,   328,   329,   330,     0,
-     331,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -355,  -355,  -355,   321,   322,     0,     0,   323,
-     324,   393,   325,   326,   327,   328,   329,   330,     0,   331,
-    -355,  -355,     0,     0,  -355,  -355,     0,   325,   326,   327,
-     328,   329,   330,     0,   331,   186,   187,   188,   189,   190,
-     191,   192,   193,   194,   195,   196,   197
+     439,   440,   441,   133,    -4,   563,   564,   406,  -152,   133,
+     407,   408,   110,    72,   626,   619,   -51,  -318,  -152,   607,
+    -154,   418,   419,  -322,   -19,   149,  -318,   570,   359,   274,
+     284,   -50,  -121,  -312,   306,  -152,   -40,  -124,   -39,  -152,
+    -249,   178,    75,  -318,  -152,   -36,  -356,   642,   111,   -20,
+    -166,  -249,    83,   308,  -160,  -148,  -166,  -160,   -35,  -321,
+    -120,   582,  -318,  -159,   124,   274,  -159,   281,  -318,   309,
+     404,   -33,  -318,   269,  -158,    54,  -152,  -158,   471,   472,
+    -123,   578,  -152,  -318,   -30,   442,  -318,   568,  -318,  -318,
+    -120,   -60,  -148,  -318,   517,  -318,  -318,   -21,  -318,  -318,
+    -318,    70,  -154,   456,  -154,  -322,   405,  -322,   -19,  -160,
+      -3,  -318,  -318,    -8,   530,  -121,  -318,  -318,  -159,  -124,
+    -357,  -124,   625,   512,   513,    65,  -160,    -9,  -118,  -158,
+    -318,   606,  -166,  -118,  -166,  -159,  -318,   133,    -7,  -148,
+     248,  -321,   647,  -321,   361,  -121,  -158,    62,  -318,   133,
+     -40,   -54,   -39,   446,   617,  -336,   481,   -18,  -152,  -356,
+    -152,   353,  -123,   -52,  -123,  -356,    -6,  -160,   -30,  -109,
+     308,   362,    -5,  -160,  -120,  -120,  -159,   -53,    54,  -318,
+    -318,  -318,  -159,   629,   -33,    69,   309,  -158,   576,   650,
+     443,   -38,  -122,  -158,    96,   249,   285,   286,   287,  -249,
+     655,    -4,  -249,  -169,  -356,  -356,   644,    67,    68,   645,
+    -318,  -255,  -318,   -51,  -318,  -318,  -160,  -160,  -160,   -60,
+     569,  -337,   571,   572,   514,  -159,  -159,  -159,   -50,  -121,
+    -121,  -292,  -253,  -357,  -292,   519,  -158,  -158,  -158,  -357,
+    -292,  -356,   -36,  -356,  -356,  -333,   -20,  -173,  -292,  -160,
+     207,  -160,  -160,  -148,  -254,   -35,    82,  -292,  -159,   586,
+    -159,  -159,  -252,  -136,   152,    81,   648,   649,   -33,  -158,
+     -18,  -158,  -158,  -153,   -38,  -122,  -292,   599,  -357,  -357,
+    -350,  -175,  -292,  -155,  -175,  -292,  -292,   610,   -41,   -38,
+    -255,  -336,   621,    92,  -339,   104,   346,  -292,   -41,    79,
+    -292,    75,  -292,  -292,   -38,  -122,   245,  -292,   308,  -292,
+    -292,  -253,  -292,  -292,  -292,  -357,  -169,  -357,  -357,   308,
+    -136,  -292,  -169,  -292,   309,  -292,  -292,  -335,  -153,   577,
+    -292,  -292,  -292,  -254,   -61,   309,   149,   637,  -155,   640,
+    -292,  -252,    88,  -292,  -292,  -153,    91,  -292,  -292,  -292,
+    -292,   559,  -292,  -334,   -18,  -155,  -292,  -337,  -333,  -292,
+    -292,  -337,  -292,  -292,  -333,  -308,  -148,  -292,  -292,   186,
+     187,   188,   189,   190,   191,   192,   193,   194,   195,   196,
+     197,   -41,    15,  -127,  -132,   -38,  -153,   103,   -38,  -122,
+    -122,   464,  -153,  -292,  -292,  -292,  -155,  -170,  -169,  -136,
+    -169,   253,  -155,   476,   477,    -2,  -292,  -292,  -292,  -292,
+    -292,   253,  -338,  -292,  -292,   106,  -292,  -292,  -292,  -292,
+    -292,  -292,  -297,  -292,  -292,  -297,  -292,   142,  -292,  -292,
+    -339,  -297,   -11,   422,  -339,  -153,  -153,  -153,  -127,  -297,
+    -333,   117,  -333,   334,   -16,  -155,  -155,  -155,  -297,   144,
+    -148,   151,   183,  -170,  -126,  -127,   -17,  -323,    83,  -127,
+     423,   515,   -61,  -335,  -156,    57,   353,  -297,  -153,   184,
+    -153,   360,   367,  -297,  -157,    58,  -297,  -297,  -155,   358,
+    -155,  -155,   254,  -324,   364,   -41,   604,   605,  -297,  -334,
+     587,  -297,   254,  -297,  -297,   -41,  -127,  -132,  -297,   154,
+    -297,  -297,  -127,  -297,  -297,  -297,    59,   157,   183,  -126,
+    -170,  -345,  -297,   161,  -297,   159,  -297,  -297,   210,  -156,
+    -125,  -297,  -297,  -297,   160,   184,  -126,  -138,   165,  -157,
+    -126,  -297,   651,   652,  -297,  -297,  -156,  -134,  -297,  -297,
+    -297,  -297,   635,  -297,   368,   -11,  -157,  -297,  -338,   211,
+    -297,  -297,  -338,  -297,  -297,   256,   257,   -16,  -297,  -297,
+     186,   187,   188,   189,   190,   191,  -170,  -126,  -154,   -17,
+    -323,   369,  -170,  -126,    54,  -133,  -323,  -156,  -127,  -132,
+    -127,  -132,   370,  -156,  -297,  -297,  -297,  -157,  -137,    85,
+      86,   171,  -170,  -157,  -170,   170,  -324,  -297,  -297,  -297,
+    -297,  -297,  -324,  -135,  -297,  -297,   181,  -297,  -297,  -297,
+    -297,  -297,  -297,  -276,  -297,  -297,  -276,  -297,   212,  -297,
+    -297,  -250,  -276,  -154,   201,   208,  -156,  -156,  -156,   -11,
+    -276,   -37,  -250,  -125,   202,  -165,  -157,  -157,  -157,  -276,
+    -154,   -16,   -13,   -14,   114,  -137,   -12,   -15,  -170,  -126,
+    -170,  -126,  -323,   -17,  -323,  -162,   340,   206,  -276,  -156,
+    -135,  -156,  -156,  -138,  -276,   -10,   203,  -276,  -276,  -157,
+    -311,  -157,  -157,  -134,  -332,   209,   574,   341,  -324,  -276,
+    -324,  -154,  -276,   308,  -276,  -276,  -251,  -154,  -133,  -276,
+     366,  -276,  -276,    55,  -276,  -276,  -276,  -251,   243,   309,
+    -108,  -327,   342,  -276,   247,  -276,   258,  -276,  -276,  -179,
+    -162,  -114,  -276,  -276,  -276,  -125,   250,  -125,    76,   630,
+     631,   632,  -276,   -29,  -137,  -276,  -276,  -162,  -139,  -276,
+    -276,  -276,  -276,   -37,  -276,    94,   -37,   308,  -276,  -135,
+     282,  -276,  -276,   292,  -276,  -276,   508,   295,  -165,  -276,
+    -276,   308,  -248,   309,  -165,   -13,   -14,   343,   296,   -12,
+     -15,  -129,   -26,  -154,   297,  -154,   -28,   309,  -162,   -27,
+    -133,   332,  -133,  -168,  -162,  -276,  -276,  -276,   -10,  -179,
+    -250,   304,  -179,  -250,   168,   179,  -325,  -332,  -276,  -276,
+    -276,  -276,  -276,  -332,  -177,  -276,  -276,  -177,  -276,  -276,
+    -276,  -276,  -276,  -276,   335,  -276,  -276,   293,  -276,   294,
+    -276,  -276,  -243,   338,  -327,  -243,  -129,  -162,  -162,  -162,
+    -327,  -243,  -106,   339,  -114,   -32,  -331,   373,   365,  -243,
+    -165,  -327,  -165,  -129,   -31,   410,   -29,  -129,  -243,   -13,
+     -14,  -167,  -154,   -12,   -15,  -251,  -180,   375,  -251,  -113,
+    -162,   109,  -162,  -162,   308,   411,   573,  -243,  -326,  -327,
+    -327,   412,   -10,  -243,  -139,   374,  -243,  -243,   396,  -332,
+     309,  -332,   395,  -107,  -129,   -26,   397,    75,  -243,   -28,
+    -129,  -243,   -27,  -243,  -243,   413,  -168,   110,  -243,   502,
+    -243,  -243,  -168,  -243,  -243,  -243,  -327,  -154,  -327,  -325,
+     416,   424,  -243,  -104,  -243,  -325,  -243,  -243,  -114,  -181,
+     444,  -243,  -243,  -243,  -154,   448,  -180,   449,   114,  -180,
+     -29,  -243,   298,   111,  -243,  -243,   308,   451,  -243,  -243,
+    -243,  -243,  -329,  -243,   466,  -106,  -105,  -243,   -32,  -331,
+    -243,  -243,   309,  -243,  -243,  -331,   474,   -31,  -243,  -243,
+     473,   -34,  -116,  -119,  -167,  -154,  -129,   308,  -129,   -26,
+    -167,  -154,  -113,   -28,  -110,   482,   -27,  -111,  -168,   485,
+    -168,  -326,   340,   309,  -243,  -243,  -243,  -326,   506,  -181,
+     507,  -325,  -181,  -325,   486,   499,  -107,  -243,  -243,  -243,
+    -243,  -243,   500,   526,  -243,  -243,   422,  -243,  -243,  -243,
+    -243,  -243,  -243,  -277,  -243,  -243,  -277,  -243,   510,  -243,
+    -243,   333,  -277,   -57,   334,   642,  -104,  -333,   527,  -106,
+    -277,  -331,   -32,  -331,   -56,  -330,   643,   348,   411,  -277,
+     349,   -31,   -59,  -128,   511,   539,  -167,  -154,  -167,  -154,
+     -55,  -161,   109,  -115,   468,  -329,  -113,   518,  -277,  -105,
+    -112,  -329,   521,  -326,  -277,  -326,   -22,  -277,  -277,   -22,
+     -58,   522,  -329,   547,   -34,  -116,  -119,   524,   546,  -277,
+    -107,   550,  -277,   343,  -277,  -277,   552,  -110,   110,  -277,
+    -111,  -277,  -277,   553,  -277,  -277,  -277,   549,  -128,   554,
+    -329,  -329,   308,  -277,   609,  -277,  -161,  -277,  -277,   555,
+    -104,   557,  -277,  -277,  -277,  -128,   347,   -24,   309,  -128,
+     -24,   556,  -277,  -161,   111,  -277,  -277,   558,   565,  -277,
+    -277,  -277,  -277,   575,  -277,   579,   -57,  -329,  -277,  -329,
+    -333,  -277,  -277,  -105,  -277,  -277,  -333,   -56,  -330,  -277,
+    -277,   581,   583,  -328,  -330,   -59,  -128,   475,   -34,  -116,
+    -119,   584,  -128,   -55,  -161,  -330,  -115,  -351,  -343,   590,
+    -161,  -110,  -349,  -112,  -111,  -277,  -277,  -277,  -176,   398,
+     588,  -176,   399,   -58,   644,   476,   477,   645,  -277,  -277,
+    -277,  -277,  -277,  -330,  -330,  -277,  -277,  -227,  -277,  -277,
+    -277,  -277,  -277,  -277,   591,  -277,  -277,   505,  -277,  -287,
+    -277,  -277,  -287,  -161,  -161,  -161,   -62,  -227,  -287,   -62,
+     -57,   308,  -333,  -227,  -333,   593,  -287,   596,   114,  -346,
+    -330,   -56,  -330,   -64,   597,  -287,   -64,   309,  -128,   -59,
+    -128,   -65,   598,   608,   -65,  -244,  -161,   -55,  -161,  -161,
+    -115,   611,   452,  -228,  -287,   453,   -47,  -112,   523,   -47,
+    -287,   207,   525,  -287,  -287,   453,  -328,   -58,   118,   119,
+     120,  -245,  -328,  -228,  -348,  -287,  -344,   308,  -287,  -228,
+    -287,  -287,   618,  -328,   493,  -287,   -48,  -287,  -287,   -48,
+    -287,  -287,  -287,   309,   -45,   -43,   620,   -45,   -43,  -287,
+     602,  -287,   -49,  -287,  -287,   -49,   654,   628,  -287,  -287,
+    -287,  -328,  -328,   636,  -154,  -154,  -154,   529,  -287,   641,
+     207,  -287,  -287,  -246,  -247,  -287,  -287,  -287,  -287,   105,
+    -287,  -244,  -244,  -244,  -287,    74,   -23,  -287,  -287,   -23,
+    -287,  -287,   455,   447,   528,  -287,  -287,  -154,  -328,   501,
+    -328,   551,   122,   -66,   334,   560,   -66,  -245,  -245,  -245,
+     562,   337,   -89,   334,  -244,   467,   -63,   353,   123,   -63,
+     280,  -287,  -287,  -287,   566,   580,   409,   353,   353,   -89,
+     -46,   465,   278,   -46,  -287,  -287,  -287,  -287,  -287,   614,
+    -245,  -287,  -287,   -83,  -287,  -287,  -287,  -287,  -287,  -287,
+    -290,  -287,  -287,  -290,  -287,   -25,  -287,  -287,   -25,  -290,
+     -83,   204,   205,   613,   124,   125,   126,  -290,   356,   470,
+     118,   119,   120,   118,   119,   120,  -290,   -89,   -89,   592,
+    -140,   -89,   186,   187,   188,   189,   190,   191,  -178,  -140,
+     594,  -178,   169,   595,  -101,  -290,   600,  -101,   372,   334,
+     127,  -290,   483,   -89,  -290,  -290,   -89,   601,   -83,   -83,
+     334,     0,   -83,   128,   121,   612,  -290,   121,   353,  -290,
+     -44,  -290,  -290,   -44,   -42,  -140,  -290,   -42,  -290,  -290,
+       0,  -290,  -290,  -290,   -83,  -140,  -100,   -83,   622,  -100,
+    -290,   353,  -290,  -102,  -290,  -290,  -102,     0,  -117,  -290,
+    -290,  -290,  -140,  -117,   122,   639,  -140,   122,   334,  -290,
+       0,  -140,  -290,  -290,     0,     0,  -290,  -290,  -290,  -290,
+     123,  -290,     0,   123,   653,  -290,     0,   334,  -290,  -290,
+       0,  -290,  -290,     0,     0,     0,  -290,  -290,   -86,     0,
+       0,     0,     0,  -140,  -117,     0,     0,     0,     0,  -140,
+       0,     0,     0,     0,     0,   -86,     0,  -118,     0,     0,
+       0,  -117,  -290,  -290,  -290,  -117,   124,   125,   126,   124,
+     125,   126,     0,     0,  -118,  -290,  -290,  -290,  -290,  -290,
+       0,     0,  -290,  -290,   -77,  -290,  -290,  -290,  -290,  -290,
+    -290,  -293,  -290,  -290,  -293,  -290,     0,  -290,  -290,     0,
+    -293,   -77,   127,   -86,   -86,   127,     0,   -86,  -293,  -117,
+    -117,  -174,     0,  -117,     0,   128,     0,  -293,   128,     0,
+       0,  -149,  -118,  -118,     0,  -140,  -118,  -140,   487,   -86,
+    -149,     0,   -86,     0,     0,  -117,  -293,     0,  -117,     0,
+       0,     0,  -293,     0,     0,  -293,  -293,   152,  -118,   -77,
+     -77,  -118,     0,   -77,     0,     0,     0,  -293,     0,     0,
+    -293,     0,  -293,  -293,     0,     0,  -149,  -293,     0,  -293,
+    -293,     0,  -293,  -293,  -293,   -77,  -149,     0,   -77,     0,
+       0,  -293,     0,  -293,     0,  -293,  -293,     0,     0,     0,
+    -293,  -293,  -293,  -149,     0,     0,     0,  -149,     0,     0,
+    -293,     0,  -149,  -293,  -293,     0,     0,  -293,  -293,  -293,
+    -293,     0,  -293,     0,     0,     0,  -293,     0,     0,  -293,
+    -293,     0,  -293,  -293,     0,     0,     0,  -293,  -293,     0,
+       0,   -79,     0,     0,  -149,     0,     0,     0,     0,     0,
+    -149,     0,     0,     0,   -80,     0,     0,     0,   -79,     0,
+     531,     0,     0,  -293,  -293,  -293,     0,     0,     0,     0,
+       0,   -80,     0,     0,     0,     0,  -293,  -293,  -293,  -293,
+    -293,     0,     0,  -293,  -293,   -67,  -293,  -293,  -293,  -293,
+    -293,  -293,  -288,  -293,  -293,  -288,  -293,     0,  -293,  -293,
+     532,  -288,   -67,     0,     0,   533,   -79,   -79,     0,  -288,
+     -79,     0,   534,   535,     0,     0,   623,     0,  -288,   -80,
+     -80,     0,     0,   -80,     0,     0,  -149,     0,  -149,   536,
+       0,     0,   -79,  -352,   537,   -79,     0,  -288,     0,     0,
+       0,     0,     0,  -288,     0,   -80,  -288,  -288,   -80,     0,
+     -67,   -67,     0,     0,   -67,     0,     0,     0,  -288,     0,
+       0,  -288,     0,  -288,  -288,   624,     0,     0,  -288,     0,
+    -288,  -288,     0,  -288,  -288,  -288,   -67,     0,     0,   -67,
+       0,     0,  -288,     0,  -288,     0,  -288,  -288,     0,     0,
+       0,  -288,  -288,  -288,     0,     0,     0,     0,     0,     0,
+       0,  -288,     0,     0,  -288,  -288,     0,     0,  -288,  -288,
+    -288,  -288,     0,  -288,     0,     0,   376,  -288,     0,     0,
+    -288,  -288,     0,  -288,  -288,     0,     0,     0,  -288,  -288,
+     377,     0,   -74,     0,   378,   379,   380,   381,   382,     0,
+     383,   -75,     0,     0,     0,     0,     0,     0,   384,   -74,
+       0,     0,     0,     0,  -288,  -288,  -288,     0,   -75,     0,
+       0,     0,     0,     0,     0,     0,     0,  -288,  -288,  -288,
+    -288,  -288,     0,   385,  -288,  -288,     0,  -288,  -288,  -288,
+    -288,  -288,  -288,  -289,  -288,  -288,  -289,  -288,     0,  -288,
+    -288,   386,  -289,   387,   388,     0,     0,   -74,   -74,     0,
+    -289,   -74,     0,   -71,     0,     0,   -75,   -75,   389,  -289,
+     -75,     0,     0,   390,     0,   391,     0,     0,     0,     0,
+     -71,     0,   -72,   -74,     0,   392,   -74,     0,  -289,     0,
+       0,     0,   -75,     0,  -289,   -75,     0,  -289,  -289,   -72,
+     -78,     0,     0,     0,     0,     0,     0,     0,     0,  -289,
+       0,     0,  -289,     0,  -289,  -289,     0,   -78,   393,  -289,
+       0,  -289,  -289,     0,  -289,  -289,  -289,     0,   -71,   -71,
+       0,     0,   -71,  -289,   311,  -289,     0,  -289,  -289,     0,
+       0,     0,  -289,  -289,  -289,     0,     0,   -72,   -72,     0,
+       0,   -72,  -289,     0,   -71,  -289,  -289,   -71,     0,  -289,
+    -289,  -289,  -289,     0,  -289,   -78,   -78,     0,  -289,   -78,
+       0,  -289,  -289,   -72,  -289,  -289,   -72,     0,     0,  -289,
+    -289,   312,     0,   -81,     0,     0,     0,     0,     0,     0,
+       0,   -78,     0,     0,   -78,     0,   516,     0,     0,     0,
+     -81,   414,     0,     0,     0,  -289,  -289,  -289,     0,   315,
+       0,     0,     0,     0,     0,     0,   316,   317,  -289,  -289,
+    -289,  -289,  -289,     0,     0,  -289,  -289,   -76,  -289,  -289,
+    -289,  -289,  -289,  -289,  -298,  -289,  -289,  -298,  -289,     0,
+    -289,  -289,     0,  -298,   -76,     0,     0,     0,   -81,   -81,
+       0,  -298,   -81,     0,   -68,   318,   319,   320,   321,   322,
+    -298,     0,   323,   324,     0,   325,   326,   327,   328,   329,
+     330,   -68,   331,   489,   -81,     0,     0,   -81,     0,  -298,
+       0,     0,     0,     0,     0,  -298,     0,     0,  -298,  -298,
+     490,   -73,   -76,   -76,     0,     0,   -76,     0,     0,     0,
+    -298,     0,     0,  -298,     0,  -298,  -298,     0,   -73,     0,
+    -298,     0,  -298,  -298,   -82,  -298,  -298,  -298,   -76,   -68,
+     -68,   -76,     0,   -68,  -298,     0,  -298,     0,  -298,  -298,
+       0,   -82,     0,  -298,  -298,  -298,     0,     0,   491,   492,
+       0,     0,   493,  -298,     0,   -68,  -298,  -298,   -68,     0,
+    -298,  -298,  -298,  -298,     0,  -298,   -73,   -73,     0,  -298,
+     -73,     0,  -298,  -298,   -91,  -298,  -298,   -91,     0,     0,
+    -298,  -298,   -98,     0,   -97,     0,     0,     0,     0,   -82,
+     -82,     0,   -73,   -82,   489,   -73,     0,     0,     0,   -98,
+     -92,   -97,     0,     0,     0,     0,  -298,  -298,  -298,     0,
+       0,   490,     0,     0,     0,   -82,     0,   -92,   -82,  -298,
+    -298,  -298,  -298,  -298,     0,     0,  -298,  -298,     0,  -298,
+    -298,  -298,  -298,  -298,  -298,  -280,  -298,  -298,  -280,  -298,
+       0,  -298,  -298,     0,  -280,     0,     0,   -98,   -98,   -97,
+     -97,   -98,  -280,   -97,     0,   -94,     0,     0,     0,   491,
+     492,  -280,     0,   493,     0,   -92,   -92,     0,     0,   -92,
+       0,     0,   -94,   -98,     0,   -97,   -98,     0,   -97,     0,
+    -280,     0,     0,     0,     0,   -90,  -280,     0,   -90,  -280,
+    -280,   -92,   -99,     0,   -92,     0,     0,     0,     0,     0,
+       0,  -280,     0,     0,  -280,     0,  -280,  -280,     0,   -99,
+       0,  -280,     0,  -280,  -280,   -96,  -280,  -280,  -280,     0,
+     -94,   -94,     0,     0,   -94,  -280,     0,  -280,     0,  -280,
+    -280,     0,   -96,     0,  -280,  -280,  -280,     0,     0,     0,
+       0,     0,     0,     0,  -280,     0,   -94,  -280,  -280,   -94,
+       0,  -280,  -280,  -280,  -280,     0,  -280,   -99,   -99,     0,
+    -280,   -99,     0,  -280,  -280,     0,  -280,  -280,     0,     0,
+       0,  -280,  -280,   -93,     0,   -95,     0,     0,     0,     0,
+     -96,   -96,     0,   -99,   -96,   -70,   -99,     0,     0,     0,
+     -93,   -88,   -95,     0,     0,     0,     0,  -280,  -280,  -280,
+       0,     0,   -70,     0,     0,     0,   -96,     0,   -88,   -96,
+    -280,  -280,  -280,  -280,  -280,     0,     0,  -280,  -280,     0,
+    -280,  -280,  -280,  -280,  -280,  -280,  -281,  -280,  -280,  -281,
+    -280,     0,  -280,  -280,     0,  -281,     0,     0,   -93,   -93,
+     -95,   -95,   -93,  -281,   -95,     0,   -84,     0,     0,     0,
+     -70,   -70,  -281,     0,   -70,     0,   -88,   -88,     0,     0,
+     -88,     0,     0,   -84,   -93,     0,   -95,   -93,     0,   -95,
+       0,  -281,     0,     0,     0,     0,   -70,  -281,     0,   -70,
+    -281,  -281,   -88,   -69,     0,   -88,     0,     0,     0,     0,
+       0,     0,  -281,     0,     0,  -281,     0,  -281,  -281,     0,
+     -69,     0,  -281,     0,  -281,  -281,   -85,  -281,  -281,  -281,
+       0,   -84,   -84,     0,     0,   -84,  -281,     0,  -281,     0,
+    -281,  -281,     0,   -85,     0,  -281,  -281,  -281,     0,     0,
+       0,     0,     0,     0,     0,  -281,     0,   -84,  -281,  -281,
+     -84,     0,  -281,  -281,  -281,  -281,     0,  -281,   -69,   -69,
+       0,  -281,   -69,     0,  -281,  -281,     0,  -281,  -281,     0,
+       0,     0,  -281,  -281,  -103,     0,   -87,     0,     0,     0,
+       0,   -85,   -85,     0,   -69,   -85,     0,   -69,     0,     0,
+       0,  -103,     0,   -87,     0,     0,     0,     0,  -281,  -281,
+    -281,     0,     0,     0,     0,     0,     0,   -85,     0,     0,
+     -85,  -281,  -281,  -281,  -281,  -281,     0,     0,  -281,  -281,
+       0,  -281,  -281,  -281,  -281,  -281,  -281,  -282,  -281,  -281,
+    -282,  -281,     0,  -281,  -281,     0,  -282,     0,     0,  -103,
+    -103,   -87,   -87,  -103,  -282,   -87,     0,     0,     0,     0,
+       0,     0,     0,  -282,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -103,     0,   -87,  -103,     0,
+     -87,     0,  -282,     0,     0,     0,     0,     0,  -282,     0,
+       0,  -282,  -282,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -282,     0,     0,  -282,     0,  -282,  -282,
+       0,     0,     0,  -282,     0,  -282,  -282,     0,  -282,  -282,
+    -282,     0,     0,     0,     0,     0,     0,  -282,     0,  -282,
+       0,  -282,  -282,     0,     0,     0,  -282,  -282,  -282,     0,
+       0,     0,     0,     0,     0,     0,  -282,     0,     0,  -282,
+    -282,     0,     0,  -282,  -282,  -282,  -282,     0,  -282,     0,
+       0,     0,  -282,     0,     0,  -282,  -282,     0,  -282,  -282,
+       0,     0,     0,  -282,  -282,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -282,
+    -282,  -282,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -282,  -282,  -282,  -282,  -282,     0,     0,  -282,
+    -282,     0,  -282,  -282,  -282,  -282,  -282,  -282,  -291,  -282,
+    -282,  -291,  -282,     0,  -282,  -282,     0,  -291,     0,     0,
+       0,     0,     0,     0,     0,  -291,     0,     0,     0,     0,
+       0,     0,     0,     0,  -291,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -291,     0,     0,     0,     0,     0,  -291,
+       0,     0,  -291,  -291,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -291,     0,     0,  -291,     0,  -291,
+    -291,     0,     0,     0,  -291,     0,  -291,  -291,     0,  -291,
+    -291,  -291,     0,     0,     0,     0,     0,     0,  -291,     0,
+    -291,     0,  -291,  -291,     0,     0,     0,  -291,  -291,  -291,
+       0,     0,     0,     0,     0,     0,     0,  -291,     0,     0,
+    -291,  -291,     0,     0,  -291,  -291,  -291,  -291,     0,  -291,
+       0,     0,     0,  -291,     0,     0,  -291,  -291,     0,  -291,
+    -291,     0,     0,     0,  -291,  -291,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -291,  -291,  -291,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -291,  -291,  -291,  -291,  -291,     0,     0,
+    -291,  -291,     0,  -291,  -291,  -291,  -291,  -291,  -291,  -283,
+    -291,  -291,  -283,  -291,     0,  -291,  -291,     0,  -283,     0,
+       0,     0,     0,     0,     0,     0,  -283,     0,     0,     0,
+       0,     0,     0,     0,     0,  -283,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -283,     0,     0,     0,     0,     0,
+    -283,     0,     0,  -283,  -283,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -283,     0,     0,  -283,     0,
+    -283,  -283,     0,     0,     0,  -283,     0,  -283,  -283,     0,
+    -283,  -283,  -283,     0,     0,     0,     0,     0,     0,  -283,
+       0,  -283,     0,  -283,  -283,     0,     0,     0,  -283,  -283,
+    -283,     0,     0,     0,     0,     0,     0,     0,  -283,     0,
+       0,  -283,  -283,     0,     0,  -283,  -283,  -283,  -283,     0,
+    -283,     0,     0,     0,  -283,     0,     0,  -283,  -283,     0,
+    -283,  -283,     0,     0,     0,  -283,  -283,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -283,  -283,  -283,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -283,  -283,  -283,  -283,  -283,     0,
+       0,  -283,  -283,     0,  -283,  -283,  -283,  -283,  -283,  -283,
+    -284,  -283,  -283,  -284,  -283,     0,  -283,  -283,     0,  -284,
+       0,     0,     0,     0,     0,     0,     0,  -284,     0,     0,
+       0,     0,     0,     0,     0,     0,  -284,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -284,     0,     0,     0,     0,
+       0,  -284,     0,     0,  -284,  -284,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -284,     0,     0,  -284,
+       0,  -284,  -284,     0,     0,     0,  -284,     0,  -284,  -284,
+       0,  -284,  -284,  -284,     0,     0,     0,     0,     0,     0,
+    -284,     0,  -284,     0,  -284,  -284,     0,     0,     0,  -284,
+    -284,  -284,     0,     0,     0,     0,     0,     0,     0,  -284,
+       0,     0,  -284,  -284,     0,     0,  -284,  -284,  -284,  -284,
+       0,  -284,     0,     0,     0,  -284,     0,     0,  -284,  -284,
+       0,  -284,  -284,     0,     0,     0,  -284,  -284,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -284,  -284,  -284,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -284,  -284,  -284,  -284,  -284,
+       0,     0,  -284,  -284,     0,  -284,  -284,  -284,  -284,  -284,
+    -284,  -285,  -284,  -284,  -285,  -284,     0,  -284,  -284,     0,
+    -285,     0,     0,     0,     0,     0,     0,     0,  -285,     0,
+       0,     0,     0,     0,     0,     0,     0,  -285,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -285,     0,     0,     0,
+       0,     0,  -285,     0,     0,  -285,  -285,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -285,     0,     0,
+    -285,     0,  -285,  -285,     0,     0,     0,  -285,     0,  -285,
+    -285,     0,  -285,  -285,  -285,     0,     0,     0,     0,     0,
+       0,  -285,     0,  -285,     0,  -285,  -285,     0,     0,     0,
+    -285,  -285,  -285,     0,     0,     0,     0,     0,     0,     0,
+    -285,     0,     0,  -285,  -285,     0,     0,  -285,  -285,  -285,
+    -285,     0,  -285,     0,     0,     0,  -285,     0,     0,  -285,
+    -285,     0,  -285,  -285,     0,     0,     0,  -285,  -285,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -285,  -285,  -285,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -285,  -285,  -285,  -285,
+    -285,     0,     0,  -285,  -285,     0,  -285,  -285,  -285,  -285,
+    -285,  -285,  -286,  -285,  -285,  -286,  -285,     0,  -285,  -285,
+       0,  -286,     0,     0,     0,     0,     0,     0,     0,  -286,
+       0,     0,     0,     0,     0,     0,     0,     0,  -286,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -286,     0,     0,
+       0,     0,     0,  -286,     0,     0,  -286,  -286,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -286,     0,
+       0,  -286,     0,  -286,  -286,     0,     0,     0,  -286,     0,
+    -286,  -286,     0,  -286,  -286,  -286,     0,     0,     0,     0,
+       0,     0,  -286,     0,  -286,     0,  -286,  -286,     0,     0,
+       0,  -286,  -286,  -286,     0,     0,     0,     0,     0,     0,
+       0,  -286,     0,     0,  -286,  -286,     0,     0,  -286,  -286,
+    -286,  -286,     0,  -286,     0,     0,     0,  -286,     0,     0,
+    -286,  -286,     0,  -286,  -286,     0,     0,     0,  -286,  -286,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -286,  -286,  -286,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -286,  -286,  -286,
+    -286,  -286,     0,     0,  -286,  -286,     0,  -286,  -286,  -286,
+    -286,  -286,  -286,  -259,  -286,  -286,  -259,  -286,     0,  -286,
+    -286,     0,  -259,     0,     0,     0,     0,     0,     0,     0,
+    -259,     0,     0,     0,     0,     0,     0,     0,     0,  -259,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -259,     0,
+       0,     0,     0,     0,  -259,     0,     0,  -259,  -259,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -259,
+       0,     0,  -259,     0,  -259,  -259,     0,     0,     0,  -259,
+       0,  -259,  -259,     0,  -259,  -259,  -259,     0,     0,     0,
+       0,     0,     0,  -259,     0,  -259,     0,  -259,  -259,     0,
+       0,     0,  -259,  -259,  -259,     0,     0,     0,     0,     0,
+       0,     0,  -259,     0,     0,  -259,  -259,     0,     0,  -259,
+    -259,  -259,  -259,     0,  -259,     0,     0,     0,  -259,     0,
+       0,  -259,  -259,     0,  -259,  -259,     0,     0,     0,  -259,
+    -259,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -259,  -259,  -259,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -259,  -259,
+    -259,  -259,  -259,     0,     0,  -259,  -259,     0,  -259,  -259,
+    -259,  -259,  -259,  -259,  -260,  -259,  -259,  -260,  -259,     0,
+    -259,  -259,     0,  -260,     0,     0,     0,     0,     0,     0,
+       0,  -260,     0,     0,     0,     0,     0,     0,     0,     0,
+    -260,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -260,
+       0,     0,     0,     0,     0,  -260,     0,     0,  -260,  -260,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -260,     0,     0,  -260,     0,  -260,  -260,     0,     0,     0,
+    -260,     0,  -260,  -260,     0,  -260,  -260,  -260,     0,     0,
+       0,     0,     0,     0,  -260,     0,  -260,     0,  -260,  -260,
+       0,     0,     0,  -260,  -260,  -260,     0,     0,     0,     0,
+       0,     0,     0,  -260,     0,     0,  -260,  -260,     0,     0,
+    -260,  -260,  -260,  -260,     0,  -260,     0,     0,     0,  -260,
+       0,     0,  -260,  -260,     0,  -260,  -260,     0,     0,     0,
+    -260,  -260,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -260,  -260,  -260,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -260,
+    -260,  -260,  -260,  -260,     0,     0,  -260,  -260,     0,  -260,
+    -260,  -260,  -260,  -260,  -260,  -261,  -260,  -260,  -261,  -260,
+       0,  -260,  -260,     0,  -261,     0,     0,     0,     0,     0,
+       0,     0,  -261,     0,     0,     0,     0,     0,     0,     0,
+       0,  -261,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -261,     0,     0,     0,     0,     0,  -261,     0,     0,  -261,
+    -261,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -261,     0,     0,  -261,     0,  -261,  -261,     0,     0,
+       0,  -261,     0,  -261,  -261,     0,  -261,  -261,  -261,     0,
+       0,     0,     0,     0,     0,  -261,     0,  -261,     0,  -261,
+    -261,     0,     0,     0,  -261,  -261,  -261,     0,     0,     0,
+       0,     0,     0,     0,  -261,     0,     0,  -261,  -261,     0,
+       0,  -261,  -261,  -261,  -261,     0,  -261,     0,     0,     0,
+    -261,     0,     0,  -261,  -261,     0,  -261,  -261,     0,     0,
+       0,  -261,  -261,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -261,  -261,  -261,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -261,  -261,  -261,  -261,  -261,     0,     0,  -261,  -261,     0,
+    -261,  -261,  -261,  -261,  -261,  -261,  -262,  -261,  -261,  -262,
+    -261,     0,  -261,  -261,     0,  -262,     0,     0,     0,     0,
+       0,     0,     0,  -262,     0,     0,     0,     0,     0,     0,
+       0,     0,  -262,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -262,     0,     0,     0,     0,     0,  -262,     0,     0,
+    -262,  -262,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -262,     0,     0,  -262,     0,  -262,  -262,     0,
+       0,     0,  -262,     0,  -262,  -262,     0,  -262,  -262,  -262,
+       0,     0,     0,     0,     0,     0,  -262,     0,  -262,     0,
+    -262,  -262,     0,     0,     0,  -262,  -262,  -262,     0,     0,
+       0,     0,     0,     0,     0,  -262,     0,     0,  -262,  -262,
+       0,     0,  -262,  -262,  -262,  -262,     0,  -262,     0,     0,
+       0,  -262,     0,     0,  -262,  -262,     0,  -262,  -262,     0,
+       0,     0,  -262,  -262,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -262,  -262,
+    -262,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -262,  -262,  -262,  -262,  -262,     0,     0,  -262,  -262,
+       0,  -262,  -262,  -262,  -262,  -262,  -262,  -263,  -262,  -262,
+    -263,  -262,     0,  -262,  -262,     0,  -263,     0,     0,     0,
+       0,     0,     0,     0,  -263,     0,     0,     0,     0,     0,
+       0,     0,     0,  -263,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -263,     0,     0,     0,     0,     0,  -263,     0,
+       0,  -263,  -263,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -263,     0,     0,  -263,     0,  -263,  -263,
+       0,     0,     0,  -263,     0,  -263,  -263,     0,  -263,  -263,
+    -263,     0,     0,     0,     0,     0,     0,  -263,     0,  -263,
+       0,  -263,  -263,     0,     0,     0,  -263,  -263,  -263,     0,
+       0,     0,     0,     0,     0,     0,  -263,     0,     0,  -263,
+    -263,     0,     0,  -263,  -263,  -263,  -263,     0,  -263,     0,
+       0,     0,  -263,     0,     0,  -263,  -263,     0,  -263,  -263,
+       0,     0,     0,  -263,  -263,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -263,
+    -263,  -263,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -263,  -263,  -263,  -263,  -263,     0,     0,  -263,
+    -263,     0,  -263,  -263,  -263,  -263,  -263,  -263,  -264,  -263,
+    -263,  -264,  -263,     0,  -263,  -263,     0,  -264,     0,     0,
+       0,     0,     0,     0,     0,  -264,     0,     0,     0,     0,
+       0,     0,     0,     0,  -264,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -264,     0,     0,     0,     0,     0,  -264,
+       0,     0,  -264,  -264,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -264,     0,     0,  -264,     0,  -264,
+    -264,     0,     0,     0,  -264,     0,  -264,  -264,     0,  -264,
+    -264,  -264,     0,     0,     0,     0,     0,     0,  -264,     0,
+    -264,     0,  -264,  -264,     0,     0,     0,  -264,  -264,  -264,
+       0,     0,     0,     0,     0,     0,     0,  -264,     0,     0,
+    -264,  -264,     0,     0,  -264,  -264,  -264,  -264,     0,  -264,
+       0,     0,     0,  -264,     0,     0,  -264,  -264,     0,  -264,
+    -264,     0,     0,     0,  -264,  -264,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -264,  -264,  -264,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -264,  -264,  -264,  -264,  -264,     0,     0,
+    -264,  -264,     0,  -264,  -264,  -264,  -264,  -264,  -264,  -265,
+    -264,  -264,  -265,  -264,     0,  -264,  -264,     0,  -265,     0,
+       0,     0,     0,     0,     0,     0,  -265,     0,     0,     0,
+       0,     0,     0,     0,     0,  -265,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -265,     0,     0,     0,     0,     0,
+    -265,     0,     0,  -265,  -265,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -265,     0,     0,  -265,     0,
+    -265,  -265,     0,     0,     0,  -265,     0,  -265,  -265,     0,
+    -265,  -265,  -265,     0,     0,     0,     0,     0,     0,  -265,
+       0,  -265,     0,  -265,  -265,     0,     0,     0,  -265,  -265,
+    -265,     0,     0,     0,     0,     0,     0,     0,  -265,     0,
+       0,  -265,  -265,     0,     0,  -265,  -265,  -265,  -265,     0,
+    -265,     0,     0,     0,  -265,     0,     0,  -265,  -265,     0,
+    -265,  -265,     0,     0,     0,  -265,  -265,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -265,  -265,  -265,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -265,  -265,  -265,  -265,  -265,     0,
+       0,  -265,  -265,     0,  -265,  -265,  -265,  -265,  -265,  -265,
+    -266,  -265,  -265,  -266,  -265,     0,  -265,  -265,     0,  -266,
+       0,     0,     0,     0,     0,     0,     0,  -266,     0,     0,
+       0,     0,     0,     0,     0,     0,  -266,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -266,     0,     0,     0,     0,
+       0,  -266,     0,     0,  -266,  -266,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -266,     0,     0,  -266,
+       0,  -266,  -266,     0,     0,     0,  -266,     0,  -266,  -266,
+       0,  -266,  -266,  -266,     0,     0,     0,     0,     0,     0,
+    -266,     0,  -266,     0,  -266,  -266,     0,     0,     0,  -266,
+    -266,  -266,     0,     0,     0,     0,     0,     0,     0,  -266,
+       0,     0,  -266,  -266,     0,     0,  -266,  -266,  -266,  -266,
+       0,  -266,     0,     0,     0,  -266,     0,     0,  -266,  -266,
+       0,  -266,  -266,     0,     0,     0,  -266,  -266,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -266,  -266,  -266,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -266,  -266,  -266,  -266,  -266,
+       0,     0,  -266,  -266,     0,  -266,  -266,  -266,  -266,  -266,
+    -266,  -267,  -266,  -266,  -267,  -266,     0,  -266,  -266,     0,
+    -267,     0,     0,     0,     0,     0,     0,     0,  -267,     0,
+       0,     0,     0,     0,     0,     0,     0,  -267,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -267,     0,     0,     0,
+       0,     0,  -267,     0,     0,  -267,  -267,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -267,     0,     0,
+    -267,     0,  -267,  -267,     0,     0,     0,  -267,     0,  -267,
+    -267,     0,  -267,  -267,  -267,     0,     0,     0,     0,     0,
+       0,  -267,     0,  -267,     0,  -267,  -267,     0,     0,     0,
+    -267,  -267,  -267,     0,     0,     0,     0,     0,     0,     0,
+    -267,     0,     0,  -267,  -267,     0,     0,  -267,  -267,  -267,
+    -267,     0,  -267,     0,     0,     0,  -267,     0,     0,  -267,
+    -267,     0,  -267,  -267,     0,     0,     0,  -267,  -267,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -267,  -267,  -267,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -267,  -267,  -267,  -267,
+    -267,     0,     0,  -267,  -267,     0,  -267,  -267,  -267,  -267,
+    -267,  -267,  -268,  -267,  -267,  -268,  -267,     0,  -267,  -267,
+       0,  -268,     0,     0,     0,     0,     0,     0,     0,  -268,
+       0,     0,     0,     0,     0,     0,     0,     0,  -268,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -268,     0,     0,
+       0,     0,     0,  -268,     0,     0,  -268,  -268,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -268,     0,
+       0,  -268,     0,  -268,  -268,     0,     0,     0,  -268,     0,
+    -268,  -268,     0,  -268,  -268,  -268,     0,     0,     0,     0,
+       0,     0,  -268,     0,  -268,     0,  -268,  -268,     0,     0,
+       0,  -268,  -268,  -268,     0,     0,     0,     0,     0,     0,
+       0,  -268,     0,     0,  -268,  -268,     0,     0,  -268,  -268,
+    -268,  -268,     0,  -268,     0,     0,     0,  -268,     0,     0,
+    -268,  -268,     0,  -268,  -268,     0,     0,     0,  -268,  -268,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -268,  -268,  -268,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -268,  -268,  -268,
+    -268,  -268,     0,     0,  -268,  -268,     0,  -268,  -268,  -268,
+    -268,  -268,  -268,  -269,  -268,  -268,  -269,  -268,     0,  -268,
+    -268,     0,  -269,     0,     0,     0,     0,     0,     0,     0,
+    -269,     0,     0,     0,     0,     0,     0,     0,     0,  -269,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -269,     0,
+       0,     0,     0,     0,  -269,     0,     0,  -269,  -269,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -269,
+       0,     0,  -269,     0,  -269,  -269,     0,     0,     0,  -269,
+       0,  -269,  -269,     0,  -269,  -269,  -269,     0,     0,     0,
+       0,     0,     0,  -269,     0,  -269,     0,  -269,  -269,     0,
+       0,     0,  -269,  -269,  -269,     0,     0,     0,     0,     0,
+       0,     0,  -269,     0,     0,  -269,  -269,     0,     0,  -269,
+    -269,  -269,  -269,     0,  -269,     0,     0,     0,  -269,     0,
+       0,  -269,  -269,     0,  -269,  -269,     0,     0,     0,  -269,
+    -269,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -269,  -269,  -269,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -269,  -269,
+    -269,  -269,  -269,     0,     0,  -269,  -269,     0,  -269,  -269,
+    -269,  -269,  -269,  -269,  -270,  -269,  -269,  -270,  -269,     0,
+    -269,  -269,     0,  -270,     0,     0,     0,     0,     0,     0,
+       0,  -270,     0,     0,     0,     0,     0,     0,     0,     0,
+    -270,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -270,
+       0,     0,     0,     0,     0,  -270,     0,     0,  -270,  -270,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -270,     0,     0,  -270,     0,  -270,  -270,     0,     0,     0,
+    -270,     0,  -270,  -270,     0,  -270,  -270,  -270,     0,     0,
+       0,     0,     0,     0,  -270,     0,  -270,     0,  -270,  -270,
+       0,     0,     0,  -270,  -270,  -270,     0,     0,     0,     0,
+       0,     0,     0,  -270,     0,     0,  -270,  -270,     0,     0,
+    -270,  -270,  -270,  -270,     0,  -270,     0,     0,     0,  -270,
+       0,     0,  -270,  -270,     0,  -270,  -270,     0,     0,     0,
+    -270,  -270,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -270,  -270,  -270,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -270,
+    -270,  -270,  -270,  -270,     0,     0,  -270,  -270,     0,  -270,
+    -270,  -270,  -270,  -270,  -270,  -271,  -270,  -270,  -271,  -270,
+       0,  -270,  -270,     0,  -271,     0,     0,     0,     0,     0,
+       0,     0,  -271,     0,     0,     0,     0,     0,     0,     0,
+       0,  -271,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -271,     0,     0,     0,     0,     0,  -271,     0,     0,  -271,
+    -271,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -271,     0,     0,  -271,     0,  -271,  -271,     0,     0,
+       0,  -271,     0,  -271,  -271,     0,  -271,  -271,  -271,     0,
+       0,     0,     0,     0,     0,  -271,     0,  -271,     0,  -271,
+    -271,     0,     0,     0,  -271,  -271,  -271,     0,     0,     0,
+       0,     0,     0,     0,  -271,     0,     0,  -271,  -271,     0,
+       0,  -271,  -271,  -271,  -271,     0,  -271,     0,     0,     0,
+    -271,     0,     0,  -271,  -271,     0,  -271,  -271,     0,     0,
+       0,  -271,  -271,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -271,  -271,  -271,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -271,  -271,  -271,  -271,  -271,     0,     0,  -271,  -271,     0,
+    -271,  -271,  -271,  -271,  -271,  -271,  -272,  -271,  -271,  -272,
+    -271,     0,  -271,  -271,     0,  -272,     0,     0,     0,     0,
+       0,     0,     0,  -272,     0,     0,     0,     0,     0,     0,
+       0,     0,  -272,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -272,     0,     0,     0,     0,     0,  -272,     0,     0,
+    -272,  -272,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -272,     0,     0,  -272,     0,  -272,  -272,     0,
+       0,     0,  -272,     0,  -272,  -272,     0,  -272,  -272,  -272,
+       0,     0,     0,     0,     0,     0,  -272,     0,  -272,     0,
+    -272,  -272,     0,     0,     0,  -272,  -272,  -272,     0,     0,
+       0,     0,     0,     0,     0,  -272,     0,     0,  -272,  -272,
+       0,     0,  -272,  -272,  -272,  -272,     0,  -272,     0,     0,
+       0,  -272,     0,     0,  -272,  -272,     0,  -272,  -272,     0,
+       0,     0,  -272,  -272,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -272,  -272,
+    -272,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -272,  -272,  -272,  -272,  -272,     0,     0,  -272,  -272,
+       0,  -272,  -272,  -272,  -272,  -272,  -272,  -295,  -272,  -272,
+    -295,  -272,     0,  -272,  -272,     0,  -295,     0,     0,     0,
+       0,     0,     0,     0,  -295,     0,     0,     0,     0,     0,
+       0,     0,     0,  -295,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -295,     0,     0,     0,     0,     0,  -295,     0,
+       0,  -295,  -295,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -295,     0,     0,  -295,     0,  -295,  -295,
+       0,     0,     0,  -295,     0,  -295,  -295,     0,  -295,  -295,
+    -295,     0,     0,     0,     0,     0,     0,  -295,     0,  -295,
+       0,  -295,  -295,     0,     0,     0,  -295,  -295,  -295,     0,
+       0,     0,     0,     0,     0,     0,  -295,     0,     0,  -295,
+    -295,     0,     0,  -295,  -295,  -295,  -295,     0,  -295,     0,
+       0,     0,  -295,     0,     0,  -295,  -295,     0,  -295,  -295,
+       0,     0,     0,  -295,  -295,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -295,
+    -295,  -295,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -295,  -295,  -295,  -295,  -295,     0,     0,  -295,
+    -295,     0,  -295,  -295,  -295,  -295,  -295,  -295,  -294,  -295,
+    -295,  -294,  -295,     0,  -295,  -295,     0,  -294,     0,     0,
+       0,     0,     0,     0,     0,  -294,     0,     0,     0,     0,
+       0,     0,     0,     0,  -294,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -294,     0,     0,     0,     0,     0,  -294,
+       0,     0,  -294,  -294,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -294,     0,     0,  -294,     0,  -294,
+    -294,     0,     0,     0,  -294,     0,  -294,  -294,     0,  -294,
+    -294,  -294,     0,     0,     0,     0,     0,     0,  -294,     0,
+    -294,     0,  -294,  -294,     0,     0,     0,  -294,  -294,  -294,
+       0,     0,     0,     0,     0,     0,     0,  -294,     0,     0,
+    -294,  -294,     0,     0,  -294,  -294,  -294,  -294,     0,  -294,
+       0,     0,     0,  -294,     0,     0,  -294,  -294,     0,  -294,
+    -294,     0,     0,     0,  -294,  -294,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -294,  -294,  -294,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -294,  -294,  -294,  -294,  -294,     0,     0,
+    -294,  -294,     0,  -294,  -294,  -294,  -294,  -294,  -294,  -278,
+    -294,  -294,  -278,  -294,     0,  -294,  -294,     0,  -278,     0,
+       0,     0,     0,     0,     0,     0,  -278,     0,     0,     0,
+       0,     0,     0,     0,     0,  -278,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -278,     0,     0,     0,     0,     0,
+    -278,     0,     0,  -278,  -278,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -278,     0,     0,  -278,     0,
+    -278,  -278,     0,     0,     0,  -278,     0,  -278,  -278,     0,
+    -278,  -278,  -278,     0,     0,     0,     0,     0,     0,  -278,
+       0,  -278,     0,  -278,  -278,     0,     0,     0,  -278,  -278,
+    -278,     0,     0,     0,     0,     0,     0,     0,  -278,     0,
+       0,  -278,  -278,     0,     0,  -278,  -278,  -278,  -278,     0,
+    -278,     0,     0,     0,  -278,     0,     0,  -278,  -278,     0,
+    -278,  -278,     0,     0,     0,  -278,  -278,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -278,  -278,  -278,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -278,  -278,  -278,  -278,  -278,     0,
+       0,  -278,  -278,     0,  -278,  -278,  -278,  -278,  -278,  -278,
+    -183,  -278,  -278,  -183,  -278,     0,  -278,  -278,     0,  -183,
+       0,     0,     0,     0,     0,     0,     0,   310,     0,     0,
+       0,     0,     0,     0,     0,     0,  -183,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -183,     0,     0,     0,     0,
+       0,  -183,     0,     0,   311,  -183,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -183,     0,     0,  -183,
+       0,  -183,  -183,     0,     0,     0,  -183,     0,  -183,  -183,
+       0,  -183,  -183,  -183,     0,     0,     0,     0,     0,     0,
+    -183,     0,  -183,     0,  -183,  -183,     0,     0,     0,  -183,
+    -183,   312,     0,     0,     0,     0,     0,     0,     0,  -183,
+       0,     0,  -183,  -183,     0,     0,  -183,  -183,  -183,  -183,
+       0,   313,     0,     0,     0,  -183,     0,     0,   314,   315,
+       0,  -183,  -183,     0,     0,     0,   316,   317,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -183,  -183,  -183,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,   318,   319,   320,   321,   322,
+       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
+     330,  -190,   331,  -183,  -190,  -183,     0,  -183,  -183,     0,
+    -190,     0,     0,     0,     0,     0,     0,     0,  -190,     0,
+       0,     0,     0,     0,     0,     0,     0,  -190,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -190,     0,     0,     0,
+       0,     0,  -190,     0,     0,  -190,  -190,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -190,     0,     0,
+    -190,     0,  -190,  -190,     0,     0,     0,  -190,     0,  -190,
+    -190,     0,  -190,  -190,  -190,     0,     0,     0,     0,     0,
+       0,  -190,     0,  -190,     0,  -190,  -190,     0,     0,     0,
+    -190,  -190,  -190,     0,     0,     0,     0,     0,     0,     0,
+    -190,     0,     0,  -190,  -190,     0,     0,  -190,  -190,  -190,
+    -190,     0,  -190,     0,     0,     0,  -190,     0,     0,  -190,
+    -190,     0,  -190,  -190,     0,     0,     0,  -190,  -190,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -190,  -190,  -190,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -190,  -190,  -190,  -190,
+    -190,     0,     0,  -190,  -190,     0,  -190,  -190,  -190,  -190,
+    -190,  -190,  -191,  -190,  -190,  -191,  -190,     0,  -190,  -190,
+       0,  -191,     0,     0,     0,     0,     0,     0,     0,  -191,
+       0,     0,     0,     0,     0,     0,     0,     0,  -191,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -191,     0,     0,
+       0,     0,     0,  -191,     0,     0,  -191,  -191,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -191,     0,
+       0,  -191,     0,  -191,  -191,     0,     0,     0,  -191,     0,
+    -191,  -191,     0,  -191,  -191,  -191,     0,     0,     0,     0,
+       0,     0,  -191,     0,  -191,     0,  -191,  -191,     0,     0,
+       0,  -191,  -191,  -191,     0,     0,     0,     0,     0,     0,
+       0,  -191,     0,     0,  -191,  -191,     0,     0,  -191,  -191,
+    -191,  -191,     0,  -191,     0,     0,     0,  -191,     0,     0,
+    -191,  -191,     0,  -191,  -191,     0,     0,     0,  -191,  -191,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -191,  -191,  -191,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -191,  -191,  -191,
+    -191,  -191,     0,     0,  -191,  -191,     0,  -191,  -191,  -191,
+    -191,  -191,  -191,  -192,  -191,  -191,  -192,  -191,     0,  -191,
+    -191,     0,  -192,     0,     0,     0,     0,     0,     0,     0,
+    -192,     0,     0,     0,     0,     0,     0,     0,     0,  -192,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -192,     0,
+       0,     0,     0,     0,  -192,     0,     0,  -192,  -192,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -192,
+       0,     0,  -192,     0,  -192,  -192,     0,     0,     0,  -192,
+       0,  -192,  -192,     0,  -192,  -192,  -192,     0,     0,     0,
+       0,     0,     0,  -192,     0,  -192,     0,  -192,  -192,     0,
+       0,     0,  -192,  -192,  -192,     0,     0,     0,     0,     0,
+       0,     0,  -192,     0,     0,  -192,  -192,     0,     0,  -192,
+    -192,  -192,  -192,     0,  -192,     0,     0,     0,  -192,     0,
+       0,  -192,  -192,     0,  -192,  -192,     0,     0,     0,  -192,
+    -192,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -192,  -192,  -192,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -192,  -192,
+    -192,  -192,  -192,     0,     0,  -192,  -192,     0,  -192,  -192,
+    -192,  -192,  -192,  -192,  -193,  -192,  -192,  -193,  -192,     0,
+    -192,  -192,     0,  -193,     0,     0,     0,     0,     0,     0,
+       0,  -193,     0,     0,     0,     0,     0,     0,     0,     0,
+    -193,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -193,
+       0,     0,     0,     0,     0,  -193,     0,     0,  -193,  -193,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -193,     0,     0,  -193,     0,  -193,  -193,     0,     0,     0,
+    -193,     0,  -193,  -193,     0,  -193,  -193,  -193,     0,     0,
+       0,     0,     0,     0,  -193,     0,  -193,     0,  -193,  -193,
+       0,     0,     0,  -193,  -193,  -193,     0,     0,     0,     0,
+       0,     0,     0,  -193,     0,     0,  -193,  -193,     0,     0,
+    -193,  -193,  -193,  -193,     0,  -193,     0,     0,     0,  -193,
+       0,     0,  -193,  -193,     0,  -193,  -193,     0,     0,     0,
+    -193,  -193,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -193,  -193,  -193,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -193,
+    -193,  -193,  -193,  -193,     0,     0,  -193,  -193,     0,  -193,
+    -193,  -193,  -193,  -193,  -193,  -206,  -193,  -193,  -206,  -193,
+       0,  -193,  -193,     0,  -206,     0,     0,     0,     0,     0,
+       0,     0,  -206,     0,     0,     0,     0,     0,     0,     0,
+       0,  -206,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -206,     0,     0,     0,     0,     0,  -206,     0,     0,  -206,
+    -206,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -206,     0,     0,  -206,     0,  -206,  -206,     0,     0,
+       0,  -206,     0,  -206,  -206,     0,  -206,  -206,  -206,     0,
+       0,     0,     0,     0,     0,  -206,     0,  -206,     0,  -206,
+    -206,     0,     0,     0,  -206,  -206,  -206,     0,     0,     0,
+       0,     0,     0,     0,  -206,     0,     0,  -206,  -206,     0,
+       0,  -206,  -206,  -206,  -206,     0,  -206,     0,     0,     0,
+    -206,     0,     0,  -206,  -206,     0,  -206,  -206,     0,     0,
+       0,  -206,  -206,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -206,  -206,  -206,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -206,  -206,  -206,  -206,  -206,     0,     0,  -206,  -206,     0,
+    -206,  -206,  -206,  -206,  -206,  -206,  -194,  -206,  -206,  -194,
+    -206,     0,  -206,  -206,     0,  -194,     0,     0,     0,     0,
+       0,     0,     0,  -194,     0,     0,     0,     0,     0,     0,
+       0,     0,  -194,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -194,     0,     0,     0,     0,     0,  -194,     0,     0,
+    -194,  -194,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -194,     0,     0,  -194,     0,  -194,  -194,     0,
+       0,     0,  -194,     0,  -194,  -194,     0,  -194,  -194,  -194,
+       0,     0,     0,     0,     0,     0,  -194,     0,  -194,     0,
+    -194,  -194,     0,     0,     0,  -194,  -194,  -194,     0,     0,
+       0,     0,     0,     0,     0,  -194,     0,     0,  -194,  -194,
+       0,     0,  -194,  -194,  -194,  -194,     0,  -194,     0,     0,
+       0,  -194,     0,     0,  -194,  -194,     0,  -194,  -194,     0,
+       0,     0,  -194,  -194,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -194,  -194,
+    -194,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -194,  -194,  -194,  -194,  -194,     0,     0,  -194,  -194,
+       0,  -194,  -194,  -194,  -194,  -194,  -194,  -195,  -194,  -194,
+    -195,  -194,     0,  -194,  -194,     0,  -195,     0,     0,     0,
+       0,     0,     0,     0,  -195,     0,     0,     0,     0,     0,
+       0,     0,     0,  -195,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -195,     0,     0,     0,     0,     0,  -195,     0,
+       0,  -195,  -195,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -195,     0,     0,  -195,     0,  -195,  -195,
+       0,     0,     0,  -195,     0,  -195,  -195,     0,  -195,  -195,
+    -195,     0,     0,     0,     0,     0,     0,  -195,     0,  -195,
+       0,  -195,  -195,     0,     0,     0,  -195,  -195,  -195,     0,
+       0,     0,     0,     0,     0,     0,  -195,     0,     0,  -195,
+    -195,     0,     0,  -195,  -195,  -195,  -195,     0,  -195,     0,
+       0,     0,  -195,     0,     0,  -195,  -195,     0,  -195,  -195,
+       0,     0,     0,  -195,  -195,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -195,
+    -195,  -195,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -195,  -195,  -195,  -195,  -195,     0,     0,  -195,
+    -195,     0,  -195,  -195,  -195,  -195,  -195,  -195,  -196,  -195,
+    -195,  -196,  -195,     0,  -195,  -195,     0,  -196,     0,     0,
+       0,     0,     0,     0,     0,  -196,     0,     0,     0,     0,
+       0,     0,     0,     0,  -196,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -196,     0,     0,     0,     0,     0,  -196,
+       0,     0,  -196,  -196,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -196,     0,     0,  -196,     0,  -196,
+    -196,     0,     0,     0,  -196,     0,  -196,  -196,     0,  -196,
+    -196,  -196,     0,     0,     0,     0,     0,     0,  -196,     0,
+    -196,     0,  -196,  -196,     0,     0,     0,  -196,  -196,  -196,
+       0,     0,     0,     0,     0,     0,     0,  -196,     0,     0,
+    -196,  -196,     0,     0,  -196,  -196,  -196,  -196,     0,  -196,
+       0,     0,     0,  -196,     0,     0,  -196,  -196,     0,  -196,
+    -196,     0,     0,     0,  -196,  -196,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -196,  -196,  -196,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -196,  -196,  -196,  -196,  -196,     0,     0,
+    -196,  -196,     0,  -196,  -196,  -196,  -196,  -196,  -196,  -197,
+    -196,  -196,  -197,  -196,     0,  -196,  -196,     0,  -197,     0,
+       0,     0,     0,     0,     0,     0,  -197,     0,     0,     0,
+       0,     0,     0,     0,     0,  -197,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -197,     0,     0,     0,     0,     0,
+    -197,     0,     0,  -197,  -197,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -197,     0,     0,  -197,     0,
+    -197,  -197,     0,     0,     0,  -197,     0,  -197,  -197,     0,
+    -197,  -197,  -197,     0,     0,     0,     0,     0,     0,  -197,
+       0,  -197,     0,  -197,  -197,     0,     0,     0,  -197,  -197,
+    -197,     0,     0,     0,     0,     0,     0,     0,  -197,     0,
+       0,  -197,  -197,     0,     0,  -197,  -197,  -197,  -197,     0,
+    -197,     0,     0,     0,  -197,     0,     0,  -197,  -197,     0,
+    -197,  -197,     0,     0,     0,  -197,  -197,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -197,  -197,  -197,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -197,  -197,  -197,  -197,  -197,     0,
+       0,  -197,  -197,     0,  -197,  -197,  -197,  -197,  -197,  -197,
+    -189,  -197,  -197,  -189,  -197,     0,  -197,  -197,     0,  -189,
+       0,     0,     0,     0,     0,     0,     0,  -189,     0,     0,
+       0,     0,     0,     0,     0,     0,  -189,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -189,     0,     0,     0,     0,
+       0,  -189,     0,     0,  -189,  -189,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -189,     0,     0,  -189,
+       0,  -189,  -189,     0,     0,     0,  -189,     0,  -189,  -189,
+       0,  -189,  -189,  -189,     0,     0,     0,     0,     0,     0,
+    -189,     0,  -189,     0,  -189,  -189,     0,     0,     0,  -189,
+    -189,  -189,     0,     0,     0,     0,     0,     0,     0,  -189,
+       0,     0,  -189,  -189,     0,     0,  -189,  -189,  -189,  -189,
+       0,  -189,     0,     0,     0,  -189,     0,     0,  -189,  -189,
+       0,  -189,  -189,     0,     0,     0,  -189,  -189,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -189,  -189,  -189,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -189,  -189,  -189,  -189,  -189,
+       0,     0,  -189,  -189,     0,  -189,  -189,  -189,  -189,  -189,
+    -189,  -199,  -189,  -189,  -199,  -189,     0,  -189,  -189,     0,
+    -199,     0,     0,     0,     0,     0,     0,     0,  -199,     0,
+       0,     0,     0,     0,     0,     0,     0,  -199,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -199,     0,     0,     0,
+       0,     0,  -199,     0,     0,  -199,  -199,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -199,     0,     0,
+    -199,     0,  -199,  -199,     0,     0,     0,  -199,     0,  -199,
+    -199,     0,  -199,  -199,  -199,     0,     0,     0,     0,     0,
+       0,  -199,     0,  -199,     0,  -199,  -199,     0,     0,     0,
+    -199,  -199,  -199,     0,     0,     0,     0,     0,     0,     0,
+    -199,     0,     0,  -199,  -199,     0,     0,  -199,  -199,  -199,
+    -199,     0,  -199,     0,     0,     0,  -199,     0,     0,  -199,
+    -199,     0,  -199,  -199,     0,     0,     0,  -199,  -199,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -199,  -199,  -199,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -199,  -199,  -199,  -199,
+    -199,     0,     0,  -199,  -199,     0,  -199,  -199,  -199,  -199,
+    -199,  -199,  -200,  -199,  -199,  -200,  -199,     0,  -199,  -199,
+       0,  -200,     0,     0,     0,     0,     0,     0,     0,  -200,
+       0,     0,     0,     0,     0,     0,     0,     0,  -200,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -200,     0,     0,
+       0,     0,     0,  -200,     0,     0,  -200,  -200,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -200,     0,
+       0,  -200,     0,  -200,  -200,     0,     0,     0,  -200,     0,
+    -200,  -200,     0,  -200,  -200,  -200,     0,     0,     0,     0,
+       0,     0,  -200,     0,  -200,     0,  -200,  -200,     0,     0,
+       0,  -200,  -200,  -200,     0,     0,     0,     0,     0,     0,
+       0,  -200,     0,     0,  -200,  -200,     0,     0,  -200,  -200,
+    -200,  -200,     0,  -200,     0,     0,     0,  -200,     0,     0,
+    -200,  -200,     0,  -200,  -200,     0,     0,     0,  -200,  -200,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -200,  -200,  -200,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -200,  -200,  -200,
+    -200,  -200,     0,     0,  -200,  -200,     0,  -200,  -200,  -200,
+    -200,  -200,  -200,  -296,  -200,  -200,  -296,  -200,     0,  -200,
+    -200,     0,  -296,     0,     0,     0,     0,     0,     0,     0,
+    -296,     0,     0,     0,     0,     0,     0,     0,     0,  -296,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -296,     0,
+       0,     0,     0,     0,  -296,     0,     0,  -296,  -296,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -296,
+       0,     0,  -296,     0,  -296,  -296,     0,     0,     0,  -296,
+       0,  -296,  -296,     0,  -296,  -296,  -296,     0,     0,     0,
+       0,     0,     0,  -296,     0,  -296,     0,  -296,  -296,     0,
+       0,     0,  -296,  -296,  -296,     0,     0,     0,     0,     0,
+       0,     0,  -296,     0,     0,  -296,  -296,     0,     0,  -296,
+    -296,  -296,  -296,     0,  -296,     0,     0,     0,  -296,     0,
+       0,  -296,  -296,     0,  -296,  -296,     0,     0,     0,  -296,
+    -296,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -296,  -296,  -296,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -296,  -296,
+    -296,  -296,  -296,     0,     0,  -296,  -296,     0,  -296,  -296,
+    -296,  -296,  -296,  -296,  -202,  -296,  -296,  -202,  -296,     0,
+    -296,  -296,     0,  -202,     0,     0,     0,     0,     0,     0,
+       0,  -202,     0,     0,     0,     0,     0,     0,     0,     0,
+    -202,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -202,
+       0,     0,     0,     0,     0,  -202,     0,     0,   311,  -202,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -202,     0,     0,  -202,     0,  -202,  -202,     0,     0,     0,
+    -202,     0,  -202,  -202,     0,  -202,  -202,  -202,     0,     0,
+       0,     0,     0,     0,  -202,     0,  -202,     0,  -202,  -202,
+       0,     0,     0,  -202,  -202,   312,     0,     0,     0,     0,
+       0,     0,     0,  -202,     0,     0,  -202,  -202,     0,     0,
+    -202,  -202,  -202,  -202,     0,   414,     0,     0,     0,  -202,
+       0,     0,  -202,   315,     0,  -202,  -202,     0,     0,     0,
+     316,   317,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -202,  -202,  -202,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,   318,
+     319,   320,   321,   322,     0,     0,   323,   324,     0,   325,
+     326,   327,   328,   329,   330,  -201,   331,  -202,  -201,  -202,
+       0,  -202,  -202,     0,  -201,     0,     0,     0,     0,     0,
+       0,     0,  -201,     0,     0,     0,     0,     0,     0,     0,
+       0,  -201,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -201,     0,     0,     0,     0,     0,  -201,     0,     0,  -201,
+    -201,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -201,     0,     0,  -201,     0,  -201,  -201,     0,     0,
+       0,  -201,     0,  -201,  -201,     0,  -201,  -201,  -201,     0,
+       0,     0,     0,     0,     0,  -201,     0,  -201,     0,  -201,
+    -201,     0,     0,     0,  -201,  -201,  -201,     0,     0,     0,
+       0,     0,     0,     0,  -201,     0,     0,  -201,  -201,     0,
+       0,  -201,  -201,  -201,  -201,     0,  -201,     0,     0,     0,
+    -201,     0,     0,  -201,  -201,     0,  -201,  -201,     0,     0,
+       0,   316,  -201,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -201,  -201,  -201,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -201,  -201,  -201,  -201,  -201,     0,     0,  -201,  -201,     0,
+    -201,  -201,   327,   328,   329,   330,  -203,   331,  -201,  -203,
+    -201,     0,  -201,  -201,     0,  -203,     0,     0,     0,     0,
+       0,     0,     0,  -203,     0,     0,     0,     0,     0,     0,
+       0,     0,  -203,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -203,     0,     0,     0,     0,     0,  -203,     0,     0,
+    -203,  -203,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -203,     0,     0,  -203,     0,  -203,  -203,     0,
+       0,     0,  -203,     0,  -203,  -203,     0,  -203,  -203,  -203,
+       0,     0,     0,     0,     0,     0,  -203,     0,  -203,     0,
+    -203,  -203,     0,     0,     0,  -203,  -203,  -203,     0,     0,
+       0,     0,     0,     0,     0,  -203,     0,     0,  -203,  -203,
+       0,     0,  -203,  -203,  -203,  -203,     0,  -203,     0,     0,
+       0,  -203,     0,     0,  -203,  -203,     0,  -203,  -203,     0,
+       0,     0,  -203,  -203,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -203,  -203,
+    -203,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -203,  -203,  -203,  -203,  -203,     0,     0,  -203,  -203,
+       0,  -203,  -203,  -203,  -203,  -203,  -203,  -279,  -203,  -203,
+    -279,  -203,     0,  -203,  -203,     0,  -279,     0,     0,     0,
+       0,     0,     0,     0,  -279,     0,     0,     0,     0,     0,
+       0,     0,     0,  -279,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -279,     0,     0,     0,     0,     0,  -279,     0,
+       0,  -279,  -279,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -279,     0,     0,  -279,     0,  -279,  -279,
+       0,     0,     0,  -279,     0,  -279,  -279,     0,  -279,  -279,
+    -279,     0,     0,     0,     0,     0,     0,  -279,     0,  -279,
+       0,  -279,  -279,     0,     0,     0,  -279,  -279,  -279,     0,
+       0,     0,     0,     0,     0,     0,  -279,     0,     0,  -279,
+    -279,     0,     0,  -279,  -279,  -279,  -279,     0,  -279,     0,
+       0,     0,  -279,     0,     0,  -279,  -279,     0,  -279,  -279,
+       0,     0,     0,  -279,  -279,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -279,
+    -279,  -279,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -279,  -279,  -279,  -279,  -279,     0,     0,  -279,
+    -279,     0,  -279,  -279,  -279,  -279,  -279,  -279,  -225,  -279,
+    -279,  -225,  -279,     0,  -279,  -279,     0,  -225,     0,     0,
+       0,     0,     0,     0,     0,  -225,     0,     0,     0,     0,
+       0,     0,     0,     0,  -225,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -225,     0,     0,     0,     0,     0,  -225,
+       0,     0,  -225,  -225,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -225,     0,     0,  -225,     0,  -225,
+    -225,     0,     0,     0,  -225,     0,  -225,  -225,     0,  -225,
+    -225,  -225,     0,     0,     0,     0,     0,     0,  -225,     0,
+    -225,     0,  -225,  -225,     0,     0,     0,  -225,  -225,  -225,
+       0,     0,     0,     0,     0,     0,     0,  -225,     0,     0,
+    -225,  -225,     0,     0,  -225,  -225,  -225,  -225,     0,  -225,
+       0,     0,     0,  -225,     0,     0,  -225,  -225,     0,  -225,
+    -225,     0,     0,     0,  -225,  -225,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -225,  -225,  -225,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -225,  -225,  -225,  -225,  -225,     0,     0,
+    -225,  -225,     0,  -225,  -225,  -225,  -225,  -225,  -225,  -198,
+    -225,  -225,  -198,  -225,     0,  -225,  -225,     0,  -198,     0,
+       0,     0,     0,     0,     0,     0,  -198,     0,     0,     0,
+       0,     0,     0,     0,     0,  -198,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -198,     0,     0,     0,     0,     0,
+    -198,     0,     0,  -198,  -198,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -198,     0,     0,  -198,     0,
+    -198,  -198,     0,     0,     0,  -198,     0,  -198,  -198,     0,
+    -198,  -198,  -198,     0,     0,     0,     0,     0,     0,  -198,
+       0,  -198,     0,  -198,  -198,     0,     0,     0,  -198,  -198,
+    -198,     0,     0,     0,     0,     0,     0,     0,  -198,     0,
+       0,  -198,  -198,     0,     0,  -198,  -198,  -198,  -198,     0,
+    -198,     0,     0,     0,  -198,     0,     0,  -198,  -198,     0,
+    -198,  -198,     0,     0,     0,  -198,  -198,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -198,  -198,  -198,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -198,  -198,  -198,  -198,  -198,     0,
+       0,  -198,  -198,     0,  -198,  -198,  -198,  -198,  -198,  -198,
+    -188,  -198,  -198,  -188,  -198,     0,  -198,  -198,     0,  -188,
+       0,     0,     0,     0,     0,     0,     0,  -188,     0,     0,
+       0,     0,     0,     0,     0,     0,  -188,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -188,     0,     0,     0,     0,
+       0,  -188,     0,     0,  -188,  -188,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -188,     0,     0,  -188,
+       0,  -188,  -188,     0,     0,     0,  -188,     0,  -188,  -188,
+       0,  -188,  -188,  -188,     0,     0,     0,     0,     0,     0,
+    -188,     0,  -188,     0,  -188,  -188,     0,     0,     0,  -188,
+    -188,  -188,     0,     0,     0,     0,     0,     0,     0,  -188,
+       0,     0,  -188,  -188,     0,     0,  -188,  -188,  -188,  -188,
+       0,  -188,     0,     0,     0,  -188,     0,     0,  -188,  -188,
+       0,  -188,  -188,     0,     0,     0,  -188,  -188,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -188,  -188,  -188,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -188,  -188,  -188,  -188,  -188,
+       0,     0,  -188,  -188,     0,  -188,  -188,  -188,  -188,  -188,
+    -188,  -204,  -188,  -188,  -204,  -188,     0,  -188,  -188,     0,
+    -204,     0,     0,     0,     0,     0,     0,     0,  -204,     0,
+       0,     0,     0,     0,     0,     0,     0,  -204,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -204,     0,     0,     0,
+       0,     0,  -204,     0,     0,  -204,  -204,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -204,     0,     0,
+    -204,     0,  -204,  -204,     0,     0,     0,  -204,     0,  -204,
+    -204,     0,  -204,  -204,  -204,     0,     0,     0,     0,     0,
+       0,  -204,     0,  -204,     0,  -204,  -204,     0,     0,     0,
+    -204,  -204,  -204,     0,     0,     0,     0,     0,     0,     0,
+    -204,     0,     0,  -204,  -204,     0,     0,  -204,  -204,  -204,
+    -204,     0,  -204,     0,     0,     0,  -204,     0,     0,  -204,
+    -204,     0,  -204,  -204,     0,     0,     0,  -204,  -204,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -204,  -204,  -204,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -204,  -204,  -204,  -204,
+    -204,     0,     0,  -204,  -204,     0,  -204,  -204,  -204,  -204,
+    -204,  -204,  -216,  -204,  -204,  -216,  -204,     0,  -204,  -204,
+       0,  -216,     0,     0,     0,     0,     0,     0,     0,  -216,
+       0,     0,     0,     0,     0,     0,     0,     0,  -216,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -216,     0,     0,
+       0,     0,     0,  -216,     0,     0,  -216,  -216,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -216,     0,
+       0,  -216,     0,  -216,  -216,     0,     0,     0,  -216,     0,
+    -216,  -216,     0,  -216,  -216,  -216,     0,     0,     0,     0,
+       0,     0,  -216,     0,  -216,     0,  -216,  -216,     0,     0,
+       0,  -216,  -216,  -216,     0,     0,     0,     0,     0,     0,
+       0,  -216,     0,     0,  -216,  -216,     0,     0,  -216,  -216,
+    -216,  -216,     0,  -216,     0,     0,     0,  -216,     0,     0,
+    -216,  -216,     0,  -216,  -216,     0,     0,     0,  -216,  -216,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -216,  -216,  -216,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -216,  -216,  -216,
+    -216,  -216,     0,     0,  -216,  -216,     0,  -216,  -216,  -216,
+    -216,  -216,  -216,  -208,   331,  -216,  -208,  -216,     0,  -216,
+    -216,     0,  -208,     0,     0,     0,     0,     0,     0,     0,
+    -208,     0,     0,     0,     0,     0,     0,     0,     0,  -208,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -208,     0,
+       0,     0,     0,     0,  -208,     0,     0,  -208,  -208,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -208,
+       0,     0,  -208,     0,  -208,  -208,     0,     0,     0,  -208,
+       0,  -208,  -208,     0,  -208,  -208,  -208,     0,     0,     0,
+       0,     0,     0,  -208,     0,  -208,     0,  -208,  -208,     0,
+       0,     0,  -208,  -208,  -208,     0,     0,     0,     0,     0,
+       0,     0,  -208,     0,     0,  -208,  -208,     0,     0,  -208,
+    -208,  -208,  -208,     0,  -208,     0,     0,     0,  -208,     0,
+       0,  -208,  -208,     0,  -208,  -208,     0,     0,     0,   316,
+    -208,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -208,  -208,  -208,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -208,  -208,
+    -208,  -208,  -208,     0,     0,  -208,  -208,     0,  -208,  -208,
+     327,   328,   329,   330,  -207,   331,  -208,  -207,  -208,     0,
+    -208,  -208,     0,  -207,     0,     0,     0,     0,     0,     0,
+       0,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
+    -207,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -207,
+       0,     0,     0,     0,     0,  -207,     0,     0,  -207,  -207,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -207,     0,     0,  -207,     0,  -207,  -207,     0,     0,     0,
+    -207,     0,  -207,  -207,     0,  -207,  -207,  -207,     0,     0,
+       0,     0,     0,     0,  -207,     0,  -207,     0,  -207,  -207,
+       0,     0,     0,  -207,  -207,  -207,     0,     0,     0,     0,
+       0,     0,     0,  -207,     0,     0,  -207,  -207,     0,     0,
+    -207,  -207,  -207,  -207,     0,  -207,     0,     0,     0,  -207,
+       0,     0,  -207,  -207,     0,  -207,  -207,     0,     0,     0,
+     316,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -207,  -207,  -207,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -207,
+    -207,  -207,  -207,  -207,     0,     0,  -207,  -207,     0,  -207,
+    -207,   327,   328,   329,   330,  -210,   331,  -207,  -210,  -207,
+       0,  -207,  -207,     0,  -210,     0,     0,     0,     0,     0,
+       0,     0,  -210,     0,     0,     0,     0,     0,     0,     0,
+       0,  -210,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -210,     0,     0,     0,     0,     0,  -210,     0,     0,  -210,
+    -210,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -210,     0,     0,  -210,     0,  -210,  -210,     0,     0,
+       0,  -210,     0,  -210,  -210,     0,  -210,  -210,  -210,     0,
+       0,     0,     0,     0,     0,  -210,     0,  -210,     0,  -210,
+    -210,     0,     0,     0,  -210,  -210,  -210,     0,     0,     0,
+       0,     0,     0,     0,  -210,     0,     0,  -210,  -210,     0,
+       0,  -210,  -210,  -210,  -210,     0,  -210,     0,     0,     0,
+    -210,     0,     0,  -210,  -210,     0,  -210,  -210,     0,     0,
+       0,   316,  -210,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -210,  -210,  -210,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -210,  -210,  -210,  -210,  -210,     0,     0,  -210,  -210,     0,
+    -210,  -210,  -210,  -210,  -210,   330,  -209,   331,  -210,  -209,
+    -210,     0,  -210,  -210,     0,  -209,     0,     0,     0,     0,
+       0,     0,     0,  -209,     0,     0,     0,     0,     0,     0,
+       0,     0,  -209,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -209,     0,     0,     0,     0,     0,  -209,     0,     0,
+    -209,  -209,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -209,     0,     0,  -209,     0,  -209,  -209,     0,
+       0,     0,  -209,     0,  -209,  -209,     0,  -209,  -209,  -209,
+       0,     0,     0,     0,     0,     0,  -209,     0,  -209,     0,
+    -209,  -209,     0,     0,     0,  -209,  -209,  -209,     0,     0,
+       0,     0,     0,     0,     0,  -209,     0,     0,  -209,  -209,
+       0,     0,  -209,  -209,  -209,  -209,     0,  -209,     0,     0,
+       0,  -209,     0,     0,  -209,  -209,     0,  -209,  -209,     0,
+       0,     0,   316,  -209,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -209,  -209,
+    -209,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -209,  -209,  -209,  -209,  -209,     0,     0,  -209,  -209,
+       0,  -209,  -209,  -209,  -209,  -209,   330,  -211,   331,  -209,
+    -211,  -209,     0,  -209,  -209,     0,  -211,     0,     0,     0,
+       0,     0,     0,     0,  -211,     0,     0,     0,     0,     0,
+       0,     0,     0,  -211,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -211,     0,     0,     0,     0,     0,  -211,     0,
+       0,  -211,  -211,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -211,     0,     0,  -211,     0,  -211,  -211,
+       0,     0,     0,  -211,     0,  -211,  -211,     0,  -211,  -211,
+    -211,     0,     0,     0,     0,     0,     0,  -211,     0,  -211,
+       0,  -211,  -211,     0,     0,     0,  -211,  -211,  -211,     0,
+       0,     0,     0,     0,     0,     0,  -211,     0,     0,  -211,
+    -211,     0,     0,  -211,  -211,  -211,  -211,     0,  -211,     0,
+       0,     0,  -211,     0,     0,  -211,  -211,     0,  -211,  -211,
+       0,     0,     0,   316,  -211,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -211,
+    -211,  -211,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -211,  -211,  -211,  -211,  -211,     0,     0,  -211,
+    -211,     0,  -211,  -211,  -211,  -211,  -211,   330,  -212,   331,
+    -211,  -212,  -211,     0,  -211,  -211,     0,  -212,     0,     0,
+       0,     0,     0,     0,     0,  -212,     0,     0,     0,     0,
+       0,     0,     0,     0,  -212,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -212,     0,     0,     0,     0,     0,  -212,
+       0,     0,  -212,  -212,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -212,     0,     0,  -212,     0,  -212,
+    -212,     0,     0,     0,  -212,     0,  -212,  -212,     0,  -212,
+    -212,  -212,     0,     0,     0,     0,     0,     0,  -212,     0,
+    -212,     0,  -212,  -212,     0,     0,     0,  -212,  -212,  -212,
+       0,     0,     0,     0,     0,     0,     0,  -212,     0,     0,
+    -212,  -212,     0,     0,  -212,  -212,  -212,  -212,     0,  -212,
+       0,     0,     0,  -212,     0,     0,  -212,  -212,     0,  -212,
+    -212,     0,     0,     0,   316,  -212,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -212,  -212,  -212,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -212,  -212,  -212,  -212,  -212,     0,     0,
+    -212,  -212,     0,  -212,  -212,  -212,  -212,  -212,  -212,  -238,
+     331,  -212,  -238,  -212,     0,  -212,  -212,     0,  -238,     0,
+       0,     0,     0,     0,     0,     0,  -238,     0,     0,     0,
+       0,     0,     0,     0,     0,  -238,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -238,     0,     0,     0,     0,     0,
+    -238,     0,     0,  -238,  -238,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -238,     0,     0,  -238,     0,
+    -238,  -238,     0,     0,     0,  -238,     0,  -238,  -238,     0,
+    -238,  -238,  -238,     0,     0,     0,     0,     0,     0,  -238,
+       0,  -238,     0,  -238,  -238,     0,     0,     0,  -238,  -238,
+    -238,     0,     0,     0,     0,     0,     0,     0,  -238,     0,
+       0,  -238,  -238,     0,     0,  -238,  -238,  -238,  -238,     0,
+    -238,     0,     0,     0,  -238,     0,     0,  -238,  -238,     0,
+    -238,  -238,     0,     0,     0,  -238,  -238,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -238,  -238,  -238,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -238,  -238,  -238,  -238,  -238,     0,
+       0,  -238,  -238,     0,  -238,  -238,  -238,  -238,  -238,  -238,
+    -223,  -238,  -238,  -223,  -238,     0,  -238,  -238,     0,  -223,
+       0,     0,     0,     0,     0,     0,     0,  -223,     0,     0,
+       0,     0,     0,     0,     0,     0,  -223,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -223,     0,     0,     0,     0,
+       0,  -223,     0,     0,  -223,  -223,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -223,     0,     0,  -223,
+       0,  -223,  -223,     0,     0,     0,  -223,     0,  -223,  -223,
+       0,  -223,  -223,  -223,     0,     0,     0,     0,     0,     0,
+    -223,     0,  -223,     0,  -223,  -223,     0,     0,     0,  -223,
+    -223,  -223,     0,     0,     0,     0,     0,     0,     0,  -223,
+       0,     0,  -223,  -223,     0,     0,  -223,  -223,  -223,  -223,
+       0,  -223,     0,     0,     0,  -223,     0,     0,  -223,  -223,
+       0,  -223,  -223,     0,     0,     0,  -223,  -223,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -223,  -223,  -223,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -223,  -223,  -223,  -223,  -223,
+       0,     0,  -223,  -223,     0,  -223,  -223,  -223,  -223,  -223,
+    -223,  -273,  -223,  -223,  -273,  -223,     0,  -223,  -223,     0,
+    -273,     0,     0,     0,     0,     0,     0,     0,  -273,     0,
+       0,     0,     0,     0,     0,     0,     0,  -273,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -273,     0,     0,     0,
+       0,     0,  -273,     0,     0,  -273,  -273,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -273,     0,     0,
+    -273,     0,  -273,  -273,     0,     0,     0,  -273,     0,  -273,
+    -273,     0,  -273,  -273,  -273,     0,     0,     0,     0,     0,
+       0,  -273,     0,  -273,     0,  -273,  -273,     0,     0,     0,
+    -273,  -273,  -273,     0,     0,     0,     0,     0,     0,     0,
+    -273,     0,     0,  -273,  -273,     0,     0,  -273,  -273,  -273,
+    -273,     0,  -273,     0,     0,     0,  -273,     0,     0,  -273,
+    -273,     0,  -273,  -273,     0,     0,     0,  -273,  -273,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -273,  -273,  -273,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -273,  -273,  -273,  -273,
+    -273,     0,     0,  -273,  -273,     0,  -273,  -273,  -273,  -273,
+    -273,  -273,  -205,  -273,  -273,  -205,  -273,     0,  -273,  -273,
+       0,  -205,     0,     0,     0,     0,     0,     0,     0,  -205,
+       0,     0,     0,     0,     0,     0,     0,     0,  -205,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -205,     0,     0,
+       0,     0,     0,  -205,     0,     0,  -205,  -205,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -205,     0,
+       0,  -205,     0,  -205,  -205,     0,     0,     0,  -205,     0,
+    -205,  -205,     0,  -205,  -205,  -205,     0,     0,     0,     0,
+       0,     0,  -205,     0,  -205,     0,  -205,  -205,     0,     0,
+       0,  -205,  -205,  -205,     0,     0,     0,     0,     0,     0,
+       0,  -205,     0,     0,  -205,  -205,     0,     0,  -205,  -205,
+    -205,  -205,     0,  -205,     0,     0,     0,  -205,     0,     0,
+    -205,  -205,     0,  -205,  -205,     0,     0,     0,  -205,  -205,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -205,  -205,  -205,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -205,  -205,  -205,
+    -205,  -205,     0,     0,  -205,  -205,     0,  -205,  -205,  -205,
+    -205,  -205,  -205,  -274,  -205,  -205,  -274,  -205,     0,  -205,
+    -205,     0,  -274,     0,     0,     0,     0,     0,     0,     0,
+    -274,     0,     0,     0,     0,     0,     0,     0,     0,  -274,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -274,     0,
+       0,     0,     0,     0,  -274,     0,     0,  -274,  -274,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -274,
+       0,     0,  -274,     0,  -274,  -274,     0,     0,     0,  -274,
+       0,  -274,  -274,     0,  -274,  -274,  -274,     0,     0,     0,
+       0,     0,     0,  -274,     0,  -274,     0,  -274,  -274,     0,
+       0,     0,  -274,  -274,  -274,     0,     0,     0,     0,     0,
+       0,     0,  -274,     0,     0,  -274,  -274,     0,     0,  -274,
+    -274,  -274,  -274,     0,  -274,     0,     0,     0,  -274,     0,
+       0,  -274,  -274,     0,  -274,  -274,     0,     0,     0,  -274,
+    -274,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -274,  -274,  -274,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -274,  -274,
+    -274,  -274,  -274,     0,     0,  -274,  -274,     0,  -274,  -274,
+    -274,  -274,  -274,  -274,  -226,  -274,  -274,  -226,  -274,     0,
+    -274,  -274,     0,  -226,     0,     0,     0,     0,     0,     0,
+       0,  -226,     0,     0,     0,     0,     0,     0,     0,     0,
+    -226,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -226,
+       0,     0,     0,     0,     0,  -226,     0,     0,  -226,  -226,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -226,     0,     0,  -226,     0,  -226,  -226,     0,     0,     0,
+    -226,     0,  -226,  -226,     0,  -226,  -226,  -226,     0,     0,
+       0,     0,     0,     0,  -226,     0,  -226,     0,  -226,  -226,
+       0,     0,     0,  -226,  -226,  -226,     0,     0,     0,     0,
+       0,     0,     0,  -226,     0,     0,  -226,  -226,     0,     0,
+    -226,  -226,  -226,  -226,     0,  -226,     0,     0,     0,  -226,
+       0,     0,  -226,  -226,     0,  -226,  -226,     0,     0,     0,
+    -226,  -226,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -226,  -226,  -226,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -226,
+    -226,  -226,  -226,  -226,     0,     0,  -226,  -226,     0,  -226,
+    -226,  -226,  -226,  -226,  -226,  -239,  -226,  -226,  -239,  -226,
+       0,  -226,  -226,     0,  -239,     0,     0,     0,     0,     0,
+       0,     0,  -239,     0,     0,     0,     0,     0,     0,     0,
+       0,  -239,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -239,     0,     0,     0,     0,     0,  -239,     0,     0,  -239,
+    -239,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -239,     0,     0,  -239,     0,  -239,  -239,     0,     0,
+       0,  -239,     0,  -239,  -239,     0,  -239,  -239,  -239,     0,
+       0,     0,     0,     0,     0,  -239,     0,  -239,     0,  -239,
+    -239,     0,     0,     0,  -239,  -239,  -239,     0,     0,     0,
+       0,     0,     0,     0,  -239,     0,     0,  -239,  -239,     0,
+       0,  -239,  -239,  -239,  -239,     0,  -239,     0,     0,     0,
+    -239,     0,     0,  -239,  -239,     0,  -239,  -239,     0,     0,
+       0,  -239,  -239,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -239,  -239,  -239,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -239,  -239,  -239,  -239,  -239,     0,     0,  -239,  -239,     0,
+    -239,  -239,  -239,  -239,  -239,  -239,  -240,  -239,  -239,  -240,
+    -239,     0,  -239,  -239,     0,  -240,     0,     0,     0,     0,
+       0,     0,     0,  -240,     0,     0,     0,     0,     0,     0,
+       0,     0,  -240,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -240,     0,     0,     0,     0,     0,  -240,     0,     0,
+    -240,  -240,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -240,     0,     0,  -240,     0,  -240,  -240,     0,
+       0,     0,  -240,     0,  -240,  -240,     0,  -240,  -240,  -240,
+       0,     0,     0,     0,     0,     0,  -240,     0,  -240,     0,
+    -240,  -240,     0,     0,     0,  -240,  -240,  -240,     0,     0,
+       0,     0,     0,     0,     0,  -240,     0,     0,  -240,  -240,
+       0,     0,  -240,  -240,  -240,  -240,     0,  -240,     0,     0,
+       0,  -240,     0,     0,  -240,  -240,     0,  -240,  -240,     0,
+       0,     0,  -240,  -240,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -240,  -240,
+    -240,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -240,  -240,  -240,  -240,  -240,     0,     0,  -240,  -240,
+       0,  -240,  -240,  -240,  -240,  -240,  -240,  -257,  -240,  -240,
+    -257,  -240,     0,  -240,  -240,     0,  -257,     0,     0,     0,
+       0,     0,     0,     0,  -257,     0,     0,     0,     0,     0,
+       0,     0,     0,  -257,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -257,     0,     0,     0,     0,     0,  -257,     0,
+       0,  -257,  -257,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -257,     0,     0,  -257,     0,  -257,  -257,
+       0,     0,     0,  -257,     0,  -257,  -257,     0,  -257,  -257,
+    -257,     0,     0,     0,     0,     0,     0,  -257,     0,  -257,
+       0,  -257,  -257,     0,     0,     0,  -257,  -257,  -257,     0,
+       0,     0,     0,     0,     0,     0,  -257,     0,     0,  -257,
+    -257,     0,     0,  -257,  -257,  -257,  -257,     0,  -257,     0,
+       0,     0,  -257,     0,     0,  -257,  -257,     0,  -257,  -257,
+       0,     0,     0,  -257,  -257,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -257,
+    -257,  -257,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -257,  -257,  -257,  -257,  -257,     0,     0,  -257,
+    -257,     0,  -257,  -257,  -257,  -257,  -257,  -257,  -258,  -257,
+    -257,  -258,  -257,     0,  -257,  -257,     0,  -258,     0,     0,
+       0,     0,     0,     0,     0,  -258,     0,     0,     0,     0,
+       0,     0,     0,     0,  -258,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -258,     0,     0,     0,     0,     0,  -258,
+       0,     0,  -258,  -258,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -258,     0,     0,  -258,     0,  -258,
+    -258,     0,     0,     0,  -258,     0,  -258,  -258,     0,  -258,
+    -258,  -258,     0,     0,     0,     0,     0,     0,  -258,     0,
+    -258,     0,  -258,  -258,     0,     0,     0,  -258,  -258,  -258,
+       0,     0,     0,     0,     0,     0,     0,  -258,     0,     0,
+    -258,  -258,     0,     0,  -258,  -258,  -258,  -258,     0,  -258,
+       0,     0,     0,  -258,     0,     0,  -258,  -258,     0,  -258,
+    -258,     0,     0,     0,  -258,  -258,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -258,  -258,  -258,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -258,  -258,  -258,  -258,  -258,     0,     0,
+    -258,  -258,     0,  -258,  -258,  -258,  -258,  -258,  -258,  -224,
+    -258,  -258,  -224,  -258,     0,  -258,  -258,     0,  -224,     0,
+       0,     0,     0,     0,     0,     0,  -224,     0,     0,     0,
+       0,     0,     0,     0,     0,  -224,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -224,     0,     0,     0,     0,     0,
+    -224,     0,     0,  -224,  -224,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -224,     0,     0,  -224,     0,
+    -224,  -224,     0,     0,     0,  -224,     0,  -224,  -224,     0,
+    -224,  -224,  -224,     0,     0,     0,     0,     0,     0,  -224,
+       0,  -224,     0,  -224,  -224,     0,     0,     0,  -224,  -224,
+    -224,     0,     0,     0,     0,     0,     0,     0,  -224,     0,
+       0,  -224,  -224,     0,     0,  -224,  -224,  -224,  -224,     0,
+    -224,     0,     0,     0,  -224,     0,     0,  -224,  -224,     0,
+    -224,  -224,     0,     0,     0,  -224,  -224,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -224,  -224,  -224,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -224,  -224,  -224,  -224,  -224,     0,
+       0,  -224,  -224,     0,  -224,  -224,  -224,  -224,  -224,  -224,
+    -241,  -224,  -224,  -241,  -224,     0,  -224,  -224,     0,  -241,
+       0,     0,     0,     0,     0,     0,     0,  -241,     0,     0,
+       0,     0,     0,     0,     0,     0,  -241,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -241,     0,     0,     0,     0,
+       0,  -241,     0,     0,  -241,  -241,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -241,     0,     0,  -241,
+       0,  -241,  -241,     0,     0,     0,  -241,     0,  -241,  -241,
+       0,  -241,  -241,  -241,     0,     0,     0,     0,     0,     0,
+    -241,     0,  -241,     0,  -241,  -241,     0,     0,     0,  -241,
+    -241,  -241,     0,     0,     0,     0,     0,     0,     0,  -241,
+       0,     0,  -241,  -241,     0,     0,  -241,  -241,  -241,  -241,
+       0,  -241,     0,     0,     0,  -241,     0,     0,  -241,  -241,
+       0,  -241,  -241,     0,     0,     0,  -241,  -241,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -241,  -241,  -241,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -241,  -241,  -241,  -241,  -241,
+       0,     0,  -241,  -241,     0,  -241,  -241,  -241,  -241,  -241,
+    -241,  -242,  -241,  -241,  -242,  -241,     0,  -241,  -241,     0,
+    -242,     0,     0,     0,     0,     0,     0,     0,  -242,     0,
+       0,     0,     0,     0,     0,     0,     0,  -242,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -242,     0,     0,     0,
+       0,     0,  -242,     0,     0,  -242,  -242,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -242,     0,     0,
+    -242,     0,  -242,  -242,     0,     0,     0,  -242,     0,  -242,
+    -242,     0,  -242,  -242,  -242,     0,     0,     0,     0,     0,
+       0,  -242,     0,  -242,     0,  -242,  -242,     0,     0,     0,
+    -242,  -242,  -242,     0,     0,     0,     0,     0,     0,     0,
+    -242,     0,     0,  -242,  -242,     0,     0,  -242,  -242,  -242,
+    -242,     0,  -242,     0,     0,     0,  -242,     0,     0,  -242,
+    -242,     0,  -242,  -242,     0,     0,     0,  -242,  -242,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -275,
+       0,     0,  -275,  -242,  -242,  -242,     0,     0,  -275,     0,
+       0,     0,     0,     0,     0,     0,  -242,  -242,  -242,  -242,
+    -242,     0,     0,  -242,  -242,  -275,  -242,  -242,  -242,  -242,
+    -242,  -242,     0,  -242,  -242,     0,  -242,     0,  -242,  -242,
+       0,     0,     0,     0,  -275,     0,     0,     0,     0,     0,
+    -275,  -151,     0,   311,  -275,     0,     0,     0,     0,     0,
+    -151,     0,     0,     0,     0,  -275,     0,     0,  -275,     0,
+    -275,  -275,     0,     0,     0,  -275,     0,  -275,  -275,     0,
+    -275,  -275,  -275,     0,     0,     0,     0,     0,     0,  -275,
+       0,  -275,     0,  -275,  -275,     0,  -151,     0,  -275,  -275,
+     312,     0,     0,     0,     0,     0,  -151,     0,  -275,     0,
+       0,  -275,  -275,     0,     0,  -275,  -275,  -275,  -275,     0,
+     414,     0,     0,  -151,  -275,     0,     0,  -151,   315,     0,
+    -275,  -275,  -151,     0,     0,   316,   317,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -275,  -275,  -275,  -151,     0,     0,   308,     0,     0,
+    -151,     0,     0,     0,   318,   319,   320,   321,   322,     0,
+       0,   323,   324,   309,   325,   326,   327,   328,   329,   330,
+    -234,   331,  -275,  -234,  -275,     0,  -275,  -275,     0,  -234,
+       0,     0,     0,     0,     0,     0,     0,  -234,     0,     0,
+       0,     0,     0,     0,     0,     0,  -234,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -234,     0,     0,     0,     0,
+       0,  -234,     0,     0,   311,  -234,  -151,     0,  -151,     0,
+       0,     0,     0,     0,     0,     0,  -234,     0,     0,  -234,
+       0,  -234,  -234,     0,     0,     0,  -234,     0,  -234,  -234,
+       0,  -234,  -234,  -234,     0,     0,     0,     0,     0,     0,
+    -234,     0,  -234,     0,  -234,  -234,     0,     0,     0,  -234,
+    -234,  -234,  -150,     0,     0,     0,     0,     0,     0,  -234,
+       0,  -150,  -234,  -234,     0,     0,  -234,  -234,  -234,  -234,
+       0,  -234,     0,     0,     0,  -234,     0,     0,  -234,   315,
+       0,  -234,  -234,     0,     0,     0,   316,  -234,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -150,     0,     0,
+       0,     0,     0,     0,     0,     0,  -235,  -150,     0,  -235,
+       0,     0,  -234,  -234,  -234,  -235,     0,     0,     0,     0,
+       0,   544,     0,  -235,  -150,  -234,  -234,  -234,  -150,     0,
+       0,     0,  -235,  -150,     0,   325,   326,   327,   328,   329,
+     330,     0,   331,  -234,     0,  -234,     0,  -234,  -234,     0,
+       0,  -235,     0,     0,     0,     0,     0,  -235,     0,     0,
+     311,  -235,     0,     0,     0,  -150,     0,     0,     0,     0,
+       0,  -150,  -235,     0,     0,  -235,     0,  -235,  -235,     0,
+       0,     0,  -235,     0,  -235,  -235,     0,  -235,  -235,  -235,
+       0,     0,     0,     0,     0,     0,  -235,     0,  -235,     0,
+    -235,  -235,     0,     0,     0,  -235,  -235,  -235,     0,     0,
+       0,     0,     0,     0,     0,  -235,     0,     0,  -235,  -235,
+       0,     0,  -235,  -235,  -235,  -235,     0,  -235,     0,     0,
+       0,  -235,     0,     0,  -235,   315,     0,  -235,  -235,     0,
+       0,     0,   316,  -235,     0,     0,     0,  -150,     0,  -150,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -236,     0,     0,  -236,     0,     0,  -235,  -235,
+    -235,  -236,     0,     0,     0,     0,     0,     0,     0,  -236,
+       0,  -235,  -235,  -235,     0,     0,     0,     0,  -236,     0,
+       0,   325,   326,   327,   328,   329,   330,     0,   331,  -235,
+       0,  -235,     0,  -235,  -235,     0,     0,  -236,     0,     0,
+       0,     0,     0,  -236,     0,     0,   311,  -236,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -236,     0,
+       0,  -236,     0,  -236,  -236,     0,     0,     0,  -236,     0,
+    -236,  -236,     0,  -236,  -236,  -236,     0,     0,     0,     0,
+       0,     0,  -236,     0,  -236,     0,  -236,  -236,     0,     0,
+       0,  -236,  -236,  -236,     0,     0,     0,     0,     0,     0,
+       0,  -236,     0,     0,  -236,  -236,     0,     0,  -236,  -236,
+    -236,  -236,     0,  -236,     0,     0,     0,  -236,     0,     0,
+    -236,   315,     0,  -236,  -236,     0,     0,     0,   316,  -236,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -237,     0,
+       0,  -237,     0,     0,  -236,  -236,  -236,  -237,     0,     0,
+       0,     0,     0,     0,     0,  -237,     0,  -236,  -236,  -236,
+       0,     0,     0,     0,  -237,     0,     0,   325,   326,   327,
+     328,   329,   330,     0,   331,  -236,     0,  -236,     0,  -236,
+    -236,     0,     0,  -237,     0,     0,     0,     0,     0,  -237,
+       0,     0,   311,  -237,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -237,     0,     0,  -237,     0,  -237,
+    -237,     0,     0,     0,  -237,     0,  -237,  -237,     0,  -237,
+    -237,  -237,     0,     0,     0,     0,     0,     0,  -237,     0,
+    -237,     0,  -237,  -237,     0,     0,     0,  -237,  -237,  -237,
+       0,     0,     0,     0,     0,     0,     0,  -237,     0,     0,
+    -237,  -237,     0,     0,  -237,  -237,  -237,  -237,     0,  -237,
+       0,     0,     0,  -237,     0,     0,  -237,   315,     0,  -237,
+    -237,     0,     0,     0,   316,  -237,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -213,     0,     0,  -213,     0,     0,
+    -237,  -237,  -237,  -213,     0,     0,     0,     0,     0,     0,
+       0,  -213,     0,  -237,  -237,  -237,     0,     0,     0,     0,
+    -213,     0,     0,   325,   326,   327,   328,   329,   330,     0,
+     331,  -237,     0,  -237,     0,  -237,  -237,     0,     0,  -213,
+       0,     0,     0,     0,     0,  -213,     0,     0,   311,  -213,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -213,     0,     0,  -213,     0,  -213,  -213,     0,     0,     0,
+    -213,     0,  -213,  -213,     0,  -213,  -213,  -213,     0,     0,
+       0,     0,     0,  -131,  -213,     0,  -213,     0,  -213,  -213,
+       0,     0,  -131,  -213,  -213,     0,     0,     0,     0,     0,
+       0,     0,     0,  -213,     0,     0,  -213,  -213,     0,     0,
+    -213,  -213,  -213,  -213,     0,  -213,     0,     0,     0,  -213,
+       0,     0,  -213,   315,     0,  -213,  -213,     0,  -131,     0,
+     316,     0,     0,     0,     0,     0,     0,     0,  -131,     0,
+       0,  -131,     0,  -215,     0,     0,  -215,     0,     0,     0,
+       0,     0,  -215,     0,     0,  -131,  -213,  -213,  -213,  -131,
+    -215,     0,     0,     0,  -131,     0,     0,     0,     0,  -215,
+       0,     0,   321,   322,     0,     0,   323,   324,     0,   325,
+     326,   327,   328,   329,   330,     0,   331,  -213,  -215,  -213,
+       0,  -213,  -213,     0,  -215,     0,  -131,   311,  -215,     0,
+       0,     0,  -131,     0,     0,     0,     0,     0,     0,  -215,
+       0,     0,  -215,     0,  -215,  -215,  -131,     0,     0,  -215,
+       0,  -215,  -215,     0,  -215,  -215,  -215,     0,     0,     0,
+       0,     0,     0,  -215,     0,  -215,     0,  -215,  -215,     0,
+       0,     0,  -215,  -215,     0,     0,     0,     0,     0,     0,
+       0,     0,  -215,     0,     0,  -215,  -215,     0,     0,  -215,
+    -215,  -215,  -215,     0,  -215,     0,     0,     0,  -215,     0,
+       0,  -215,   315,     0,  -215,  -215,     0,  -131,  -131,   316,
+    -131,  -131,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -231,     0,     0,  -231,     0,     0,     0,     0,
+       0,  -231,     0,     0,     0,  -215,  -215,  -215,     0,  -231,
+       0,     0,     0,     0,     0,     0,     0,     0,  -231,     0,
+       0,   321,   322,     0,     0,   323,   324,     0,   325,   326,
+     327,   328,   329,   330,     0,   331,  -215,  -231,  -215,     0,
+    -215,  -215,     0,  -231,     0,     0,   311,  -231,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -231,     0,
+       0,  -231,     0,  -231,  -231,     0,     0,     0,  -231,     0,
+    -231,  -231,     0,  -231,  -231,  -231,     0,     0,     0,     0,
+       0,  -130,  -231,     0,  -231,     0,  -231,  -231,     0,     0,
+    -130,  -231,  -231,     0,     0,     0,     0,     0,     0,     0,
+       0,  -231,     0,     0,  -231,  -231,     0,     0,  -231,  -231,
+    -231,  -231,     0,  -231,     0,     0,     0,  -231,     0,     0,
+    -231,   315,     0,  -231,  -231,     0,  -130,     0,   316,     0,
+       0,     0,     0,     0,     0,     0,  -130,     0,     0,  -130,
+       0,  -232,     0,     0,  -232,     0,     0,     0,     0,     0,
+    -232,     0,     0,  -130,  -231,  -231,  -231,  -130,  -232,     0,
+       0,     0,  -130,     0,     0,     0,     0,  -232,     0,     0,
+     321,   322,     0,     0,   323,   324,     0,   325,   326,   327,
+     328,   329,   330,     0,   331,  -231,  -232,  -231,     0,  -231,
+    -231,     0,  -232,     0,  -130,   311,  -232,     0,     0,     0,
+    -130,     0,     0,     0,     0,     0,     0,  -232,     0,     0,
+    -232,     0,  -232,  -232,  -130,     0,     0,  -232,     0,  -232,
+    -232,     0,  -232,  -232,  -232,     0,     0,     0,     0,     0,
+       0,  -232,     0,  -232,     0,  -232,  -232,     0,     0,     0,
+    -232,  -232,     0,     0,     0,     0,     0,     0,     0,     0,
+    -232,     0,     0,  -232,  -232,     0,     0,  -232,  -232,  -232,
+    -232,     0,  -232,     0,     0,     0,  -232,     0,     0,  -232,
+     315,     0,  -232,  -232,     0,  -130,  -130,   316,  -130,  -130,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -233,     0,     0,  -233,     0,     0,     0,     0,     0,  -233,
+       0,     0,     0,  -232,  -232,  -232,     0,  -233,     0,     0,
+       0,     0,     0,     0,     0,     0,  -233,     0,     0,   321,
+     322,     0,     0,   323,   324,     0,   325,   326,   327,   328,
+     329,   330,     0,   331,  -232,  -233,  -232,     0,  -232,  -232,
+       0,  -233,     0,     0,   311,  -233,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -233,     0,     0,  -233,
+       0,  -233,  -233,     0,     0,     0,  -233,     0,  -233,  -233,
+       0,  -233,  -233,  -233,     0,     0,     0,     0,     0,     0,
+    -233,     0,  -233,     0,  -233,  -233,     0,     0,     0,  -233,
+    -233,     0,     0,     0,     0,     0,     0,     0,     0,  -233,
+       0,     0,  -233,  -233,     0,     0,  -233,  -233,  -233,  -233,
+       0,  -233,     0,     0,     0,  -233,     0,     0,  -233,   315,
+       0,  -233,  -233,     0,     0,     0,   316,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -214,
+       0,     0,  -214,     0,     0,     0,     0,     0,  -214,     0,
+       0,     0,  -233,  -233,  -233,     0,  -214,     0,     0,     0,
+       0,     0,     0,     0,     0,  -214,     0,     0,   321,   322,
+       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
+     330,     0,   331,  -233,  -214,  -233,     0,  -233,  -233,     0,
+    -214,     0,     0,   311,  -214,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -214,     0,     0,  -214,     0,
+    -214,  -214,     0,     0,     0,  -214,     0,  -214,  -214,     0,
+    -214,  -214,  -214,     0,     0,     0,     0,     0,     0,  -214,
+       0,  -214,     0,  -214,  -214,     0,     0,     0,  -214,  -214,
+       0,     0,     0,     0,     0,     0,     0,     0,  -214,     0,
+       0,  -214,  -214,     0,     0,  -214,  -214,  -214,  -214,     0,
+    -214,     0,     0,     0,  -214,     0,     0,  -214,   315,     0,
+    -214,  -214,     0,     0,     0,   316,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -185,     0,
+       0,  -185,     0,     0,     0,     0,  -147,  -185,     0,     0,
+       0,  -214,  -214,  -214,     0,  -147,     0,     0,     0,     0,
+       0,     0,     0,     0,  -185,     0,     0,   321,   322,     0,
+       0,   323,   324,     0,   325,   326,   327,   328,   329,   330,
+       0,   331,  -214,  -185,  -214,     0,  -214,  -214,     0,  -185,
+       0,  -147,     0,  -185,     0,     0,     0,     0,     0,     0,
+       0,  -147,     0,     0,  -185,     0,     0,  -185,     0,  -185,
+    -185,     0,     0,     0,  -185,  -147,  -185,  -185,  -147,  -185,
+    -185,  -185,  -147,     0,     0,     0,     0,  -147,  -185,     0,
+    -185,     0,  -185,  -185,     0,     0,     0,  -185,  -185,     0,
+       0,     0,     0,     0,     0,     0,     0,  -185,     0,     0,
+    -185,  -185,     0,     0,  -185,  -185,  -185,  -185,     0,  -147,
+       0,     0,   308,  -185,     0,  -147,     0,     0,  -187,  -185,
+    -185,  -187,     0,     0,     0,     0,     0,  -187,   309,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -187,     0,     0,     0,     0,     0,
+    -185,  -185,  -185,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -187,     0,     0,     0,     0,     0,  -187,
+       0,     0,     0,  -187,     0,     0,     0,     0,     0,     0,
+       0,  -185,     0,  -185,  -187,  -185,  -185,  -187,     0,  -187,
+    -187,  -147,     0,  -147,  -187,     0,  -187,  -187,     0,  -187,
+    -187,  -187,     0,     0,     0,     0,     0,     0,  -187,     0,
+    -187,     0,  -187,  -187,     0,     0,     0,  -187,  -187,     0,
+       0,     0,     0,     0,     0,     0,     0,  -187,     0,     0,
+    -187,  -187,     0,     0,  -187,  -187,  -187,  -187,     0,     0,
+       0,     0,     0,  -187,     0,     0,     0,     0,  -186,  -187,
+    -187,  -186,     0,     0,     0,     0,     0,  -186,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -186,     0,     0,     0,     0,     0,
+    -187,  -187,  -187,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -186,     0,     0,     0,     0,     0,  -186,
+       0,     0,     0,  -186,     0,     0,     0,     0,     0,     0,
+       0,  -187,     0,  -187,  -186,  -187,  -187,  -186,     0,  -186,
+    -186,     0,     0,     0,  -186,     0,  -186,  -186,     0,  -186,
+    -186,  -186,     0,     0,     0,     0,     0,     0,  -186,     0,
+    -186,     0,  -186,  -186,     0,     0,     0,  -186,  -186,     0,
+       0,     0,     0,     0,     0,     0,     0,  -186,     0,     0,
+    -186,  -186,     0,     0,  -186,  -186,  -186,  -186,     0,     0,
+       0,     0,     0,  -186,     0,     0,     0,     0,  -184,  -186,
+    -186,  -184,     0,     0,     0,     0,     0,  -184,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -184,     0,     0,     0,     0,     0,
+    -186,  -186,  -186,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -184,     0,     0,     0,     0,     0,  -184,
+       0,     0,     0,  -184,     0,     0,     0,     0,     0,     0,
+       0,  -186,     0,  -186,  -184,  -186,  -186,  -184,     0,  -184,
+    -184,     0,     0,     0,  -184,     0,  -184,  -184,     0,  -184,
+    -184,  -184,     0,     0,     0,     0,     0,     0,  -184,     0,
+    -184,     0,  -184,  -184,     0,     0,     0,  -184,  -184,     0,
+       0,     0,     0,     0,     0,     0,     0,  -184,     0,     0,
+    -184,  -184,     0,     0,  -184,  -184,  -184,  -184,     0,     0,
+       0,     0,     0,  -184,     0,     0,     0,     0,  -217,  -184,
+    -184,  -217,     0,     0,     0,     0,     0,  -217,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -217,     0,     0,     0,     0,     0,
+    -184,  -184,  -184,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -217,     0,     0,     0,     0,     0,  -217,
+       0,     0,     0,  -217,     0,     0,     0,     0,     0,     0,
+       0,  -184,     0,  -184,  -217,  -184,  -184,  -217,     0,  -217,
+    -217,     0,     0,     0,  -217,     0,  -217,  -217,     0,  -217,
+    -217,  -217,     0,     0,     0,     0,     0,     0,  -217,     0,
+    -217,     0,  -217,  -217,     0,     0,     0,  -217,  -217,     0,
+       0,     0,     0,     0,     0,     0,     0,  -217,     0,     0,
+    -217,  -217,     0,     0,  -217,  -217,  -217,  -217,     0,     0,
+       0,     0,     0,  -217,     0,     0,     0,     0,  -218,  -217,
+    -217,  -218,     0,     0,     0,     0,     0,  -218,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -218,     0,     0,     0,     0,     0,
+    -217,  -217,  -217,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -218,     0,     0,     0,     0,     0,  -218,
+       0,     0,     0,  -218,     0,     0,     0,     0,     0,     0,
+       0,  -217,     0,  -217,  -218,  -217,  -217,  -218,     0,  -218,
+    -218,     0,     0,     0,  -218,     0,  -218,  -218,     0,  -218,
+    -218,  -218,     0,     0,     0,     0,     0,     0,  -218,     0,
+    -218,     0,  -218,  -218,     0,     0,     0,  -218,  -218,     0,
+       0,     0,     0,     0,     0,     0,     0,  -218,     0,     0,
+    -218,  -218,     0,     0,   308,  -218,  -218,  -218,     0,     0,
+       0,     0,     0,  -218,     0,     0,     0,     0,  -229,  -218,
+    -218,  -229,     0,     0,     0,     0,     0,  -229,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -229,     0,     0,     0,     0,     0,
+    -218,  -218,  -218,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -229,     0,     0,     0,     0,     0,  -229,
+       0,     0,     0,  -229,     0,     0,     0,     0,     0,     0,
+       0,  -218,     0,  -218,  -229,  -218,  -218,  -229,     0,  -229,
+    -229,     0,     0,     0,  -229,     0,  -229,  -229,     0,  -229,
+    -229,  -229,     0,     0,     0,     0,     0,     0,  -229,     0,
+    -229,     0,  -229,  -229,     0,     0,     0,  -229,  -229,     0,
+       0,     0,     0,     0,     0,     0,     0,  -229,     0,     0,
+    -229,  -229,     0,     0,  -229,  -229,  -229,  -229,     0,     0,
+       0,     0,     0,  -229,     0,     0,     0,     0,  -230,  -229,
+    -229,  -230,     0,     0,     0,     0,     0,  -230,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -230,     0,     0,     0,     0,     0,
+    -229,  -229,  -229,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -230,     0,     0,     0,     0,     0,  -230,
+       0,     0,     0,  -230,     0,     0,     0,     0,     0,     0,
+       0,  -229,     0,  -229,  -230,  -229,  -229,  -230,     0,  -230,
+    -230,     0,     0,     0,  -230,     0,  -230,  -230,     0,  -230,
+    -230,  -230,     0,     0,     0,     0,     0,     0,  -230,     0,
+    -230,     0,  -230,  -230,     0,     0,     0,  -230,  -230,     0,
+       0,     0,     0,     0,     0,     0,     0,  -230,     0,     0,
+    -230,  -230,     0,     0,  -230,  -230,  -230,  -230,     0,     0,
+       0,     0,     0,  -230,     0,     0,     0,     0,  -221,  -230,
+    -230,  -221,     0,     0,     0,     0,     0,  -221,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -221,     0,     0,     0,     0,     0,
+    -230,  -230,  -230,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -221,     0,     0,     0,     0,     0,  -221,
+       0,     0,     0,  -221,     0,     0,     0,     0,     0,     0,
+       0,  -230,     0,  -230,  -221,  -230,  -230,  -221,     0,  -221,
+    -221,     0,     0,     0,  -221,     0,  -221,  -221,     0,  -221,
+    -221,  -221,     0,     0,     0,     0,     0,     0,  -221,     0,
+    -221,     0,  -221,  -221,     0,     0,     0,  -221,  -221,     0,
+       0,     0,     0,     0,     0,     0,     0,  -221,     0,     0,
+    -221,  -221,     0,     0,  -221,  -221,  -221,  -221,     0,     0,
+       0,     0,     0,  -221,     0,     0,     0,     0,  -219,  -221,
+    -221,  -219,     0,     0,     0,     0,     0,  -219,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -219,     0,     0,     0,     0,     0,
+    -221,  -221,  -221,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -219,     0,     0,     0,     0,     0,  -219,
+       0,     0,     0,  -219,     0,     0,     0,     0,     0,     0,
+       0,  -221,     0,  -221,  -219,  -221,  -221,  -219,     0,  -219,
+    -219,     0,     0,     0,  -219,     0,  -219,  -219,     0,  -219,
+    -219,  -219,     0,     0,     0,     0,     0,     0,  -219,     0,
+    -219,     0,  -219,  -219,     0,     0,     0,  -219,  -219,     0,
+       0,     0,     0,     0,     0,     0,     0,  -219,     0,     0,
+    -219,  -219,     0,     0,  -219,  -219,  -219,  -219,     0,     0,
+       0,     0,     0,  -219,     0,     0,     0,     0,  -222,  -219,
+    -219,  -222,     0,     0,     0,     0,     0,  -222,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -222,     0,     0,     0,     0,     0,
+    -219,  -219,  -219,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -222,     0,     0,     0,     0,     0,  -222,
+       0,     0,     0,  -222,     0,     0,     0,     0,     0,     0,
+       0,  -219,     0,  -219,  -222,  -219,  -219,  -222,     0,  -222,
+    -222,     0,     0,     0,  -222,     0,  -222,  -222,     0,  -222,
+    -222,  -222,     0,     0,     0,     0,     0,     0,  -222,     0,
+    -222,     0,  -222,  -222,     0,     0,     0,  -222,  -222,     0,
+       0,     0,     0,     0,     0,     0,     0,  -222,     0,     0,
+    -222,  -222,     0,     0,  -222,  -222,  -222,  -222,     0,     0,
+       0,     0,     0,  -222,     0,     0,     0,     0,  -220,  -222,
+    -222,  -220,     0,     0,     0,     0,     0,  -220,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -220,     0,     0,     0,     0,     0,
+    -222,  -222,  -222,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -220,     0,     0,     0,     0,     0,  -220,
+       0,     0,     0,  -220,     0,     0,     0,     0,     0,     0,
+       0,  -222,     0,  -222,  -220,  -222,  -222,  -220,     0,  -220,
+    -220,     0,     0,     0,  -220,     0,  -220,  -220,     0,  -220,
+    -220,  -220,     0,     0,     0,     0,     0,     0,  -220,     0,
+    -220,     0,  -220,  -220,     0,     0,     0,  -220,  -220,     0,
+       0,     0,     0,     0,     0,     0,     0,  -220,     0,     0,
+    -220,  -220,     0,     0,  -220,  -220,  -220,  -220,     0,     0,
+       0,     0,     0,  -220,     0,     0,     0,     0,     0,  -220,
+    -220,  -309,     0,     0,  -309,     0,     0,     0,     0,     0,
+    -309,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -309,     0,     0,
+    -220,  -220,  -220,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -309,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -309,     0,     0,  -309,
+       0,  -220,     0,  -220,  -309,  -220,  -220,  -309,     0,     0,
+    -309,     0,  -309,  -309,     0,     0,     0,  -309,     0,  -309,
+    -309,     0,  -309,  -309,  -309,     0,     0,     0,     0,     0,
+       0,     0,  -309,     0,     0,  -309,  -309,     0,     0,     0,
+    -309,  -309,     0,     0,     0,  -309,     0,     0,     0,  -310,
+       0,     0,  -310,     0,  -309,     0,     0,     0,  -310,     0,
+    -309,     0,  -309,     0,  -309,     0,  -309,     0,     0,     0,
+       0,     0,  -309,     0,  -309,  -310,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -310,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -310,     0,     0,  -310,     0,     0,
+    -309,  -309,  -310,     0,  -309,  -310,     0,     0,  -310,     0,
+    -310,  -310,     0,     0,     0,  -310,     0,  -310,  -310,     0,
+    -310,  -310,  -310,     0,     0,  -309,  -309,    80,  -309,  -309,
+    -310,     0,     0,  -310,  -310,     0,     0,     0,  -310,  -310,
+       0,     0,     0,  -310,     0,  -316,     0,     0,   354,     0,
+       0,     0,  -310,     0,  -316,     0,     0,     0,  -310,     0,
+    -310,     0,  -310,     0,  -310,     0,     0,     0,     0,     0,
+    -310,  -316,  -310,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -353,     0,     0,     0,     0,     0,
+    -316,     0,     0,  -353,     0,     0,     0,     0,     0,     0,
+    -316,     0,     0,     0,     0,     0,     0,     0,  -310,  -310,
+    -353,  -316,  -310,     0,  -316,     0,  -316,  -316,     0,     0,
+       0,  -316,     0,  -316,  -316,     0,  -316,  -316,  -316,  -353,
+       0,     0,     0,  -310,  -310,     0,  -310,  -310,     0,  -353,
+    -316,     0,     0,     0,  -316,  -316,     0,     0,     0,     0,
+    -353,     0,     0,  -353,     0,  -353,  -353,     0,  -316,     0,
+    -353,     0,  -353,  -353,  -316,  -353,  -353,  -353,     0,     0,
+     540,     0,     0,     0,     0,     0,  -316,     0,  -317,  -353,
+       0,     0,     0,  -353,  -353,     0,  -320,  -317,     0,   354,
+       0,     0,     0,     0,     0,  -320,     0,  -353,     0,     0,
+     308,     0,     0,  -353,  -317,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -353,   309,     0,     0,     0,
+       0,     0,     0,  -317,     0,     0,     0,     0,     0,     0,
+       0,  -320,     0,  -317,     0,     0,     0,  -320,     0,     0,
+    -316,  -320,  -316,  -316,  -317,     0,     0,  -317,     0,  -317,
+    -317,     0,     0,     0,  -317,  -320,  -317,  -317,  -320,  -317,
+    -317,  -317,  -320,     0,     0,     0,     0,  -320,     0,  -320,
+       0,     0,     0,  -317,     0,     0,     0,  -317,  -317,  -353,
+    -320,  -353,  -353,     0,     0,     0,     0,  -301,     0,     0,
+       0,  -317,     0,     0,     0,     0,  -301,  -317,     0,  -320,
+       0,     0,   308,     0,     0,  -320,     0,     0,     0,  -317,
+       0,   355,     0,  -301,     0,     0,     0,     0,   309,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -301,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -301,     0,     0,     0,     0,     0,  -320,  -320,
+    -320,     0,     0,  -301,     0,     0,  -301,     0,  -301,  -301,
+       0,     0,  -303,  -301,     0,  -301,  -301,     0,  -301,  -301,
+    -301,  -303,   616,  -317,     0,  -317,  -317,     0,     0,  -320,
+       0,  -320,  -301,  -320,  -320,     0,  -301,  -301,  -303,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -301,     0,     0,     0,     0,     0,  -301,  -303,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -303,  -301,     0,
+       0,     0,     0,  -302,     0,     0,     0,     0,  -303,     0,
+       0,  -303,  -302,  -303,  -303,     0,     0,     0,  -303,     0,
+    -303,  -303,     0,  -303,  -303,  -303,     0,     0,     0,  -302,
+       0,     0,     0,     0,     0,     0,     0,  -303,     0,     0,
+       0,  -303,  -303,     0,     0,     0,     0,     0,  -302,     0,
+       0,     0,     0,     0,     0,  -303,     0,     0,  -302,     0,
+       0,  -303,  -301,     0,  -301,  -301,     0,     0,     0,  -302,
+       0,     0,  -302,  -303,  -302,  -302,     0,     0,  -315,  -302,
+       0,  -302,  -302,     0,  -302,  -302,  -302,  -315,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -302,     0,
+       0,     0,  -302,  -302,  -315,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -302,     0,     0,     0,
+       0,     0,  -302,  -315,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -315,  -302,     0,     0,  -303,     0,  -303,
+    -303,     0,     0,     0,  -315,     0,     0,  -315,     0,  -315,
+    -315,     0,     0,     0,  -315,     0,  -315,  -315,  -307,  -315,
+    -315,  -315,     0,     0,     0,     0,     0,  -307,     0,     0,
+       0,     0,     0,  -315,     0,     0,     0,  -315,  -315,     0,
+       0,     0,     0,     0,  -307,     0,     0,     0,     0,     0,
+       0,  -315,     0,     0,     0,     0,     0,  -315,  -302,     0,
+    -302,  -302,     0,  -307,     0,     0,     0,     0,     0,  -315,
+       0,     0,     0,  -307,     0,     0,     0,     0,     0,  -313,
+       0,     0,     0,     0,  -307,     0,     0,  -307,  -313,  -307,
+    -307,     0,     0,     0,  -307,     0,  -307,  -307,     0,  -307,
+    -307,  -307,     0,     0,     0,  -313,     0,     0,     0,     0,
+       0,     0,     0,  -307,     0,     0,     0,  -307,  -307,     0,
+       0,     0,     0,     0,  -313,     0,     0,     0,     0,     0,
+       0,  -307,     0,  -315,  -313,  -315,  -315,  -307,     0,   214,
+     118,   119,   120,     0,     0,  -313,     0,     0,  -313,  -307,
+    -313,  -313,     0,     0,  -304,  -313,     0,  -313,  -313,     0,
+    -313,  -313,  -313,  -304,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -313,     0,     0,     0,  -313,  -313,
+    -304,     0,   215,   216,   217,     0,     0,     0,     0,     0,
+       0,     0,  -313,     0,     0,     0,     0,     0,  -313,  -304,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -304,
+    -313,     0,     0,  -307,     0,  -307,  -307,     0,     0,     0,
+    -304,   218,     0,  -304,   122,  -304,  -304,     0,     0,     0,
+    -304,     0,  -304,  -304,  -340,  -304,  -304,  -304,     0,     0,
+     123,     0,     0,  -340,     0,     0,     0,     0,     0,  -304,
+       0,   272,     0,  -304,  -304,     0,     0,   219,     0,     0,
+    -340,     0,     0,     0,     0,     0,     0,  -304,     0,     0,
+       0,   220,     0,  -304,  -313,     0,  -313,  -313,     0,  -340,
+       0,     0,     0,     0,     0,  -304,   124,   125,   126,  -340,
+       0,     0,     0,     0,     0,  -341,     0,     0,     0,     0,
+    -340,     0,     0,  -340,  -341,  -340,  -340,     0,     0,     0,
+    -340,     0,  -340,  -340,     0,  -340,  -340,  -340,     0,     0,
+       0,  -341,   221,   222,     0,     0,     0,     0,     0,  -340,
+     223,     0,     0,  -340,  -340,   128,     0,     0,     0,     0,
+    -341,     0,     0,     0,     0,     0,     0,  -340,     0,  -304,
+    -341,  -304,  -304,  -340,     0,   214,   118,   119,   120,     0,
+       0,  -341,     0,     0,  -341,  -340,  -341,  -341,     0,     0,
+    -314,  -341,     0,  -341,  -341,     0,  -341,  -341,  -341,  -314,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -341,     0,     0,     0,  -341,  -341,  -314,     0,   215,   216,
+     217,     0,     0,     0,     0,     0,     0,     0,  -341,     0,
+       0,     0,     0,     0,  -341,  -314,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -314,  -341,     0,     0,  -340,
+       0,  -340,  -340,     0,     0,     0,  -314,   218,     0,  -314,
+     122,  -314,  -314,     0,     0,     0,  -314,     0,  -314,  -314,
+    -342,  -314,  -314,  -314,     0,     0,   123,     0,     0,  -342,
+       0,     0,     0,     0,   298,  -314,     0,     0,     0,  -314,
+    -314,     0,     0,   219,     0,     0,  -342,     0,     0,     0,
+       0,     0,     0,  -314,     0,     0,     0,   220,     0,  -314,
+    -341,     0,  -341,  -341,     0,  -342,     0,     0,     0,     0,
+       0,  -314,   124,   125,   126,  -342,     0,     0,     0,     0,
+       0,  -299,     0,     0,     0,     0,  -342,     0,     0,  -342,
+    -299,  -342,  -342,     0,     0,     0,  -342,     0,  -342,  -342,
+       0,  -342,  -342,  -342,     0,     0,     0,   531,   221,   222,
+       0,     0,     0,     0,     0,  -342,   223,     0,     0,  -342,
+    -342,   128,     0,     0,     0,     0,  -299,     0,     0,     0,
+       0,     0,     0,  -342,     0,  -314,  -299,  -314,  -314,  -342,
+       0,     0,     0,     0,     0,     0,     0,   532,     0,     0,
+    -299,  -342,   533,  -299,     0,     0,  -300,  -299,     0,   534,
+     535,     0,  -299,     0,  -299,  -300,     0,     0,     0,  -171,
+       0,     0,     0,     0,     0,     0,   536,     0,  -171,     0,
+    -352,   537,   531,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -299,     0,     0,     0,     0,     0,
+    -299,  -300,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -300,     0,     0,  -171,  -342,     0,  -342,  -342,     0,
+    -171,     0,   532,     0,  -171,  -300,     0,   533,  -300,     0,
+       0,     0,  -300,     0,   534,   535,     0,  -300,  -171,  -300,
+       0,  -171,     0,     0,  -319,  -171,     0,     0,     0,     0,
+    -171,   536,  -171,  -319,     0,  -352,   537,     0,     0,     0,
+       0,     0,     0,  -171,     0,     0,     0,     0,     0,  -300,
+       0,     0,     0,     0,     0,  -300,  -299,     0,  -299,  -305,
+       0,     0,  -171,     0,     0,     0,     0,     0,  -171,  -319,
+       0,     0,     0,     0,     0,  -319,     0,     0,     0,  -319,
+       0,  -182,     0,     0,     0,     0,     0,     0,     0,     0,
+    -182,     0,     0,  -319,     0,     0,  -319,     0,     0,     0,
+    -319,     0,     0,     0,     0,  -319,     0,  -319,     0,     0,
+       0,  -171,  -171,  -171,     0,     0,     0,     0,  -319,     0,
+       0,  -172,     0,     0,     0,     0,  -182,     0,     0,  -317,
+    -172,  -300,  -182,  -300,  -306,     0,  -182,  -319,  -317,     0,
+       0,     0,  -171,  -319,  -171,     0,  -171,  -171,     0,     0,
+    -182,     0,     0,  -182,     0,     0,     0,  -182,     0,     0,
+       0,     0,  -182,     0,  -182,     0,  -172,     0,     0,     0,
+       0,     0,  -172,     0,  -317,  -182,  -172,     0,     0,     0,
+    -317,     0,     0,  -143,  -317,     0,  -319,  -319,  -319,     0,
+    -172,     0,  -143,  -172,  -182,     0,     0,  -172,  -317,     0,
+    -182,  -317,  -172,     0,  -172,  -317,     0,     0,     0,     0,
+    -317,     0,  -317,     0,     0,  -172,     0,  -319,  -145,  -319,
+       0,  -319,  -319,  -317,     0,     0,     0,  -145,  -143,     0,
+       0,     0,     0,     0,  -172,     0,     0,     0,  -143,     0,
+    -172,     0,  -317,  -182,  -182,  -182,     0,     0,  -317,     0,
+       0,     0,  -143,     0,     0,  -143,     0,     0,     0,  -143,
+    -148,     0,     0,  -145,  -143,     0,  -143,     0,     0,  -148,
+       0,     0,     0,  -145,  -182,     0,  -182,  -143,  -182,  -182,
+    -144,     0,     0,  -172,  -172,  -172,     0,  -145,     0,  -144,
+    -145,  -317,  -317,  -317,  -145,     0,  -143,     0,     0,  -145,
+       0,  -145,  -143,     0,     0,  -148,     0,     0,     0,     0,
+       0,     0,   350,     0,  -172,  -148,  -172,     0,  -172,  -172,
+       0,     0,  -317,     0,  -317,  -144,  -317,  -317,     0,  -148,
+       0,  -145,  -148,     0,     0,  -144,  -148,  -145,     0,     0,
+       0,  -148,     0,   149,     0,  -146,     0,     0,     0,  -144,
+       0,     0,  -144,     0,  -146,     0,  -144,     0,     0,     0,
+       0,  -144,     0,  -144,     0,  -164,  -164,  -164,  -164,     0,
+       0,     0,     0,  -148,  -164,     0,     0,     0,  -143,  -148,
+    -143,   353,     0,     0,     0,     0,  -292,  -292,  -292,  -292,
+    -146,     0,     0,  -144,     0,  -292,     0,     0,     0,  -144,
+    -146,     0,     0,     0,     0,     0,     0,     0,  -164,  -164,
+    -164,     0,     0,  -145,  -146,  -145,     0,  -146,     0,     0,
+       0,  -146,     0,     0,     0,     0,  -146,     0,  -146,  -292,
+    -292,  -292,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -164,     0,     0,
+    -164,     0,     0,     0,     0,  -148,     0,  -148,  -146,     0,
+       0,     0,     0,     0,  -146,     0,  -164,     0,  -292,     0,
+       0,  -292,     0,     0,     0,  -144,     0,  -144,     0,     0,
+       0,     0,     0,  -164,     0,     0,   107,  -292,     0,     0,
+       0,     0,     0,  -142,  -142,  -142,  -142,  -164,     0,     0,
+       0,     0,   173,     0,  -292,     0,     0,     0,     0,     0,
+       0,     0,  -164,  -164,  -164,     0,     0,     0,  -292,  -142,
+    -142,  -142,  -142,     0,     0,     0,     0,     0,   173,     0,
+       0,     0,     0,  -292,  -292,  -292,  -142,  -142,  -142,     0,
+    -146,     0,  -146,     0,     0,     0,     0,     0,  -164,  -164,
+       0,     0,     0,     0,     0,     0,  -164,     0,     0,     0,
+       0,  -164,  -142,  -142,  -142,     0,     0,     0,     0,  -292,
+    -292,     0,     0,     0,     0,  -142,  -292,  -292,  -142,     0,
+       0,     0,  -292,     0,     0,     0,     0,  -142,  -142,  -142,
+    -142,     0,     0,     0,  -142,     0,   173,     0,     0,     0,
+       0,  -142,     0,     0,  -142,  -163,  -163,  -163,  -163,     0,
+       0,  -142,     0,     0,  -163,   214,   118,   119,   120,     0,
+    -142,     0,     0,     0,     0,  -142,     0,     0,     0,     0,
+    -142,  -142,  -142,     0,     0,     0,     0,  -142,     0,     0,
+    -142,  -142,  -142,     0,     0,     0,     0,     0,  -163,  -163,
+    -163,  -142,     0,     0,     0,     0,     0,     0,   215,   216,
+     217,     0,     0,     0,     0,     0,  -142,  -142,  -142,  -142,
+      75,     0,  -142,     0,     0,     0,  -142,  -142,     0,     0,
+       0,     0,     0,     0,  -142,   401,     0,  -163,  -142,  -142,
+    -163,     0,     0,     0,     0,     0,     0,   218,     0,     0,
+     122,     0,  -142,  -142,     0,  -142,  -163,     0,     0,     0,
+    -142,   567,     0,     0,     0,  -142,   123,     0,     0,  -142,
+       0,     0,     0,  -163,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,   219,  -142,  -142,  -142,  -163,     0,     0,
+       0,   214,   118,   119,   120,     0,     0,   220,     0,     0,
+       0,     0,  -163,  -163,  -163,     0,     0,     0,     0,     0,
+       0,     0,   124,   125,   126,  -141,  -141,  -141,  -141,     0,
+    -142,  -142,     0,     0,     0,     0,     0,     0,  -142,     0,
+       0,     0,     0,  -142,   215,   216,   217,     0,  -163,  -163,
+       0,     0,     0,     0,     0,     0,  -163,     0,   221,   222,
+       0,  -163,     0,     0,     0,     0,   223,     0,  -141,  -141,
+    -141,   128,     0,     0,     0,     0,     0,     0,   214,   118,
+     119,   120,     0,   218,     0,     0,   122,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   123,     0,     0,     0,     0,  -141,     0,     0,
+    -141,     0,     0,     0,     0,     0,     0,     0,     0,   219,
+       0,   301,   216,   217,     0,     0,  -141,     0,     0,     0,
+       0,     0,     0,   220,     0,     0,     0,     0,   214,   118,
+     119,   120,     0,  -141,     0,     0,     0,     0,   124,   125,
+     126,     0,     0,     0,     0,     0,     0,  -141,     0,     0,
+     218,     0,     0,   122,     0,     0,     0,     0,     0,     0,
+       0,     0,  -141,  -141,  -141,     0,     0,     0,     0,   123,
+       0,     0,   216,   217,   221,   222,     0,     0,     0,     0,
+       0,     0,   223,     0,     0,     0,   302,   128,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -141,  -141,
+     220,     0,     0,     0,     0,     0,  -141,     0,     0,     0,
+     218,  -141,     0,   122,     0,   124,   125,   126,     0,     0,
+       0,     0,     0,     0,     0,     0,  -354,     0,     0,   123,
+       0,     0,     0,     1,     0,     0,     0,     0,     0,     0,
+       0,     2,     0,     0,     0,     0,   302,     0,     3,     0,
+       0,   221,   222,     4,     0,     0,     0,     0,     0,   223,
+     220,     0,     0,     5,   128,     0,     6,     7,     0,     0,
+       0,     0,     0,     0,     0,   124,   125,   126,     8,     9,
+       0,     0,     0,     0,  -335,     0,     0,     0,    10,     0,
+       0,    11,     0,     0,     0,     1,     0,     0,     0,     0,
+       0,     0,     0,     2,     0,     0,     0,     0,     0,     0,
+       3,   221,   222,    12,     0,     4,     0,    13,     0,   223,
+       0,     0,     0,     0,   128,     5,     0,     0,     6,     7,
+       0,     0,     0,    14,     0,     0,     0,     0,     0,    15,
+       8,     9,     0,     0,     0,     0,  -335,     0,     0,     0,
+      10,     0,     0,    11,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,    12,     0,     0,     0,    13,
+       0,    16,    17,    18,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,    14,     0,     0,     0,     0,
+       0,    15,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -335,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,    16,    17,    18,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -335
 };
 
 static const yytype_int16 yycheck[] =
 {
        2,   107,   149,     5,   175,    54,   148,   304,    10,   211,
-      12,   182,    57,    58,    59,   293,   155,   342,    97,    98,
-     374,    12,     3,    81,     3,     3,    12,   112,   115,    51,
-     115,   219,    58,   221,   181,   373,   183,   184,   113,     3,
-     136,   395,     3,   539,     9,    83,    48,     3,    50,    92,
-       5,     6,   566,   567,    27,   203,    19,    94,    60,    90,
-     130,     6,     3,     4,     5,     6,   495,     6,     3,   112,
-      55,   218,   151,    78,     3,   118,   223,   104,    17,    94,
-      45,   158,   159,    85,    86,   116,   117,    72,   158,   159,
-     292,    93,   588,   116,   121,   191,   133,    60,   100,   101,
-     247,   132,     3,   116,   153,   402,    47,    48,   622,   132,
-     125,    76,   125,    26,   302,   643,    81,   256,   193,   132,
-     197,   475,   310,    55,   312,   101,   654,   424,   316,   317,
+      12,   182,    57,    58,    59,   293,   342,   115,    97,    98,
+     374,    19,   116,    81,     3,    78,     3,   112,   125,   116,
+     115,   219,   373,   221,   181,     0,   183,   184,   132,   539,
+       0,   395,    27,   335,     0,     3,    48,     0,    50,   495,
+       0,     0,     3,     0,   203,   347,     0,    78,    60,     5,
+       6,     3,    60,    94,     0,     3,   109,    94,     3,    70,
+       0,   218,   151,   116,    94,   104,   223,     0,    99,    80,
+     116,     0,     0,    85,    86,    98,     0,     3,   588,   132,
+     292,    93,   121,     0,     0,     0,   132,   194,   100,   101,
+     247,   195,    55,     0,   153,   402,     0,     0,   195,     0,
+     111,     0,     9,   133,   302,     0,     9,     0,    83,    72,
+       0,   475,   310,    76,   312,   178,    80,   424,   316,   317,
      318,   319,   320,   321,   322,   323,   324,   325,   326,   327,
-     328,   329,   330,   201,    85,   499,   500,    88,   296,   207,
-     297,   298,   128,    66,     3,     4,     5,     6,    71,   197,
-     116,   308,   309,   104,   125,    78,    79,   193,    62,   125,
-     508,   194,   601,   178,   223,   197,   132,    94,   193,   266,
-     121,   266,    95,    70,   116,   116,    99,   100,   169,   170,
-     171,   166,   167,    80,   135,   150,     3,    46,    47,    48,
-     132,   132,   527,   194,     4,     5,     6,   209,   194,   150,
-     151,   152,   351,   360,   193,   193,    12,    24,   365,   366,
-     165,   518,   186,   168,   111,   331,   165,   505,   136,   168,
-       3,    94,   194,     9,   422,   197,    85,   116,    98,    88,
-     134,    37,    49,   104,   185,   186,   295,     3,     4,     5,
-       6,    24,   193,   132,   456,   104,    58,   198,    54,    92,
-     121,    63,   616,   410,   411,    70,   115,   161,   335,    45,
-      80,   568,   121,    26,   154,    80,    49,   335,   172,   112,
-     347,   189,   636,   191,   197,   118,   135,     0,    88,   347,
-      46,    47,    48,   338,   591,     3,   375,   104,   116,   196,
-     118,   150,   151,   152,   104,    81,   111,   103,   169,   170,
-     109,   192,   173,    66,   132,   194,   197,   116,    71,   116,
-     109,   118,   193,   620,   195,    78,    79,   116,   516,    85,
-     332,   104,    88,   132,   113,   132,   185,   186,     3,     4,
-       5,     6,    95,   132,   193,     3,    99,   100,   104,   198,
-     150,   151,   152,   136,   166,   167,   112,     4,     5,     6,
-     507,   195,   509,   510,   413,   121,     3,     4,     5,     6,
-       3,     4,     5,     6,   194,   424,   193,   197,   127,   135,
-     112,    46,    47,    48,   116,   185,   138,   139,   140,   141,
-     142,   143,   265,    58,   150,   151,   152,   270,   198,   194,
-     132,    48,   197,   186,   187,   188,   189,    94,   191,    46,
-      47,    48,    17,    46,    47,    48,   194,   559,     3,   197,
-      85,   123,   194,    88,   127,   197,   133,   574,   194,   185,
-     186,   197,   603,   194,   125,   194,   197,   193,   197,   104,
-     194,    88,   198,   197,   197,    17,    18,   194,    85,    54,
-     197,    88,    85,   163,   164,    88,   121,   104,   194,   194,
-     194,   197,   197,   197,   197,   194,    97,   104,   197,   518,
-     135,   104,   194,   194,   124,   197,   197,   624,   194,   626,
-     194,   197,     3,   197,   121,   150,   151,   152,   121,    26,
-       4,   493,   162,   163,   164,   121,   101,     3,   135,    46,
-      47,    83,   135,   150,   151,   152,    93,   193,     3,   194,
-      46,   194,     4,   150,   151,   152,   121,   150,   151,   152,
-     185,   186,     3,   128,   129,   193,   193,     6,   193,    66,
-      12,   136,   137,   198,    71,   115,   126,   193,   185,     4,
-       4,    78,    79,   194,   197,    82,    46,   131,   185,   186,
-       3,   198,   185,   186,   174,     3,   193,    91,    95,    76,
-     193,   198,   119,   100,     3,   198,   125,   113,   193,   174,
-     175,   176,   177,   178,   193,   193,   181,   182,     0,   184,
-     185,   186,   187,   188,   189,     7,   191,   191,    98,    39,
-     193,   193,    54,    15,   131,   193,    94,   197,   197,    55,
-      22,   125,     7,    93,   193,    27,   172,   193,   172,    58,
-      15,   194,   193,     3,   193,    37,     4,    22,    40,    41,
-       4,     4,    27,     3,     3,   193,   161,   172,   193,   101,
-      52,    53,    37,   193,    77,    40,    41,   193,   193,   101,
-      62,   193,   193,    65,   193,   116,   194,    52,    53,    94,
-     193,   191,   104,   192,   116,     3,   197,    62,    69,   121,
-      65,     3,    62,    54,   160,    87,   194,   129,     6,    91,
-       6,     6,     6,     6,   136,   137,   104,   193,   172,    11,
-       4,   194,    87,   194,    99,   107,    91,   194,     3,    78,
-      99,   113,    54,    25,   126,   194,    78,    29,    30,    31,
-      32,    33,   107,    35,    78,   194,   194,    54,   113,   194,
-     101,    43,   174,   175,   176,   177,   178,   194,   105,   181,
-     182,   194,   184,   185,   186,   187,   188,   189,     6,   191,
-     121,   173,   193,   155,   156,   157,    68,   194,   129,   101,
-     126,   116,   193,    70,    24,   136,   137,   194,   349,   453,
-     155,   156,   157,   399,    86,   495,    88,    89,   353,   127,
-     127,   339,   248,   360,   201,   584,   207,   129,   299,   583,
-     364,   103,   276,   264,   136,   137,   108,   548,   110,   104,
-      -1,    -1,   129,   174,   175,   176,   177,   178,   120,   136,
-     181,   182,    -1,   184,   185,   186,   187,   188,   189,    -1,
-     191,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   174,   175,   176,   177,   178,    -1,    -1,   181,
-     182,   153,   184,   185,   186,   187,   188,   189,    -1,   191,
-     177,   178,    -1,    -1,   181,   182,    -1,   184,   185,   186,
-     187,   188,   189,    -1,   191,   138,   139,   140,   141,   142,
-     143,   144,   145,   146,   147,   148,   149
+     328,   329,   330,   201,     0,   499,   500,   296,    45,   207,
+     297,   298,    45,   113,    51,   601,     0,     0,    55,   195,
+     113,   308,   309,   113,   113,    83,     9,   508,   266,   119,
+       3,     0,     0,   131,   223,    72,    83,   113,    83,    76,
+       6,   266,    58,    26,    81,     0,     0,     6,    81,     0,
+     113,    17,   127,   116,     0,   113,   119,     3,     0,   113,
+      83,   527,    45,     0,   150,   119,     3,   209,    51,   132,
+     187,     0,    55,   360,     0,   194,   113,     3,   365,   366,
+     113,   518,   119,    66,   113,   331,    69,   505,    71,    72,
+     113,     3,   197,    76,   422,    78,    79,   197,    81,    82,
+      83,   197,   195,   194,   197,   195,   295,   197,   197,    55,
+     197,    94,    95,   197,   456,    83,    99,   100,    55,   195,
+       0,   197,   616,   410,   411,   154,    72,   197,    58,    55,
+     113,   568,   195,    63,   197,    72,   119,   335,   197,   197,
+     198,   195,   636,   197,    90,   113,    72,     3,   131,   347,
+     197,   197,   197,   338,   591,    58,   375,     0,   195,   113,
+     197,   198,   195,   197,   197,   119,   197,   113,   197,     3,
+     116,   117,   197,   119,   197,   198,   113,   197,   194,   162,
+     163,   164,   119,   620,   113,     0,   132,   113,   516,   643,
+     332,     0,     0,   119,   133,   155,   169,   170,   171,   165,
+     654,   197,   168,     0,   158,   159,   165,    17,    18,   168,
+     193,   116,   195,   197,   197,   198,   162,   163,   164,   131,
+     507,    58,   509,   510,   413,   162,   163,   164,   197,   197,
+     198,     0,   116,   113,     3,   424,   162,   163,   164,   119,
+       9,   195,   197,   197,   198,     0,   197,   195,    17,   195,
+     198,   197,   198,     0,   116,   197,    94,    26,   195,    78,
+     197,   198,   116,    58,   194,   194,   166,   167,   197,   195,
+     113,   197,   198,     0,    83,    83,    45,   559,   158,   159,
+      99,   195,    51,     0,   198,    54,    55,   574,     0,    98,
+     195,   194,   603,   127,    58,   198,   256,    66,     0,     3,
+      69,    58,    71,    72,   113,   113,    63,    76,   116,    78,
+      79,   195,    81,    82,    83,   195,   113,   197,   198,   116,
+     115,    90,   119,    92,   132,    94,    95,    58,    55,   518,
+      99,   100,   101,   195,     3,   132,    83,   624,    55,   626,
+     109,   195,     3,   112,   113,    72,   123,   116,   117,   118,
+     119,   493,   121,    58,   197,    72,   125,   194,   113,   128,
+     129,   198,   131,   132,   119,   123,   113,   136,   137,   138,
+     139,   140,   141,   142,   143,   144,   145,   146,   147,   148,
+     149,    83,   113,     0,     0,   194,   113,   125,   197,   197,
+     198,   351,   119,   162,   163,   164,   113,     0,   195,   194,
+     197,   113,   119,   158,   159,     0,   175,   176,   177,   178,
+     179,   113,    58,   182,   183,    97,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,     4,   197,   198,
+     194,     9,     0,   101,   198,   162,   163,   164,    55,    17,
+     195,     3,   197,   198,     0,   162,   163,   164,    26,   121,
+     197,    93,    55,     0,     0,    72,     0,     0,   127,    76,
+     128,   193,   131,   194,     0,    70,   198,    45,   195,    72,
+     197,   198,    62,    51,     0,    80,    54,    55,   195,   265,
+     197,   198,   194,     0,   270,   197,   566,   567,    66,   194,
+      78,    69,   194,    71,    72,   197,   113,   113,    76,     3,
+      78,    79,   119,    81,    82,    83,   111,    46,    55,    55,
+     113,    99,    90,     4,    92,   195,    94,    95,    94,    55,
+       0,    99,   100,   101,   195,    72,    72,    58,     3,    55,
+      76,   109,   166,   167,   112,   113,    72,    58,   116,   117,
+     118,   119,   622,   121,   134,   113,    72,   125,   194,   125,
+     128,   129,   198,   131,   132,   163,   164,   113,   136,   137,
+     138,   139,   140,   141,   142,   143,   113,   113,     0,   113,
+     113,   161,   119,   119,   194,     0,   119,   113,   195,   195,
+     197,   197,   172,   119,   162,   163,   164,   113,    58,    46,
+      47,     6,   195,   119,   197,   194,   113,   175,   176,   177,
+     178,   179,   119,    58,   182,   183,   126,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,   194,   197,
+     198,     6,     9,    55,   194,    46,   162,   163,   164,   197,
+      17,    93,    17,   113,     4,     0,   162,   163,   164,    26,
+      72,   197,     0,     0,    76,   115,     0,     0,   195,   195,
+     197,   197,   195,   197,   197,     0,     3,   195,    45,   195,
+     115,   197,   198,   194,    51,     0,     4,    54,    55,   195,
+     131,   197,   198,   194,     0,   131,   109,    24,   195,    66,
+     197,   113,    69,   116,    71,    72,     6,   119,   113,    76,
+      55,    78,    79,    12,    81,    82,    83,    17,     3,   132,
+       3,     0,    49,    90,   175,    92,     3,    94,    95,   125,
+      55,     0,    99,   100,   101,   195,    91,   197,    37,   162,
+     163,   164,   109,     0,   194,   112,   113,    72,    58,   116,
+     117,   118,   119,   195,   121,    54,   198,   116,   125,   194,
+       3,   128,   129,   125,   131,   132,   125,   194,   113,   136,
+     137,   116,   195,   132,   119,   113,   113,   104,   194,   113,
+     113,     0,     0,   195,   194,   197,     0,   132,   113,     0,
+     195,    98,   197,     0,   119,   162,   163,   164,   113,   195,
+     165,   192,   198,   168,   103,   115,     0,   113,   175,   176,
+     177,   178,   179,   119,   195,   182,   183,   198,   185,   186,
+     187,   188,   189,   190,   194,   192,   193,   194,   195,   196,
+     197,   198,     0,    39,   113,     3,    55,   162,   163,   164,
+     119,     9,     0,   194,   113,     0,     0,   125,    55,    17,
+     195,   130,   197,    72,     0,    92,   113,    76,    26,   197,
+     197,     0,     0,   197,   197,   165,   125,    93,   168,     0,
+     195,     9,   197,   198,   116,   112,   118,    45,     0,   158,
+     159,   118,   197,    51,   194,   194,    54,    55,   172,   195,
+     132,   197,   194,     0,   113,   113,   172,    58,    66,   113,
+     119,    69,   113,    71,    72,   194,   113,    45,    76,    77,
+      78,    79,   119,    81,    82,    83,   195,    55,   197,   113,
+     195,   194,    90,     0,    92,   119,    94,    95,   197,   125,
+       3,    99,   100,   101,    72,     4,   195,     4,    76,   198,
+     197,   109,   112,    81,   112,   113,   116,     4,   116,   117,
+     118,   119,     0,   121,     3,   113,     0,   125,   113,   113,
+     128,   129,   132,   131,   132,   119,   161,   113,   136,   137,
+     172,     0,     0,     0,   113,   113,   195,   116,   197,   197,
+     119,   119,   113,   197,     0,   194,   197,     0,   195,   194,
+     197,   113,     3,   132,   162,   163,   164,   119,   195,   195,
+      94,   195,   198,   197,   194,   194,   113,   175,   176,   177,
+     178,   179,   194,    24,   182,   183,   101,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    92,   197,
+     198,   195,     9,     0,   198,     6,   113,     0,    49,   197,
+      17,   195,   197,   197,     0,     0,    17,   195,   112,    26,
+     198,   197,     0,     0,   118,   198,   195,   195,   197,   197,
+       0,     0,     9,     0,     3,   113,   197,   194,    45,   113,
+       0,   119,   104,   195,    51,   197,   195,    54,    55,   198,
+       0,   193,   130,    62,   113,   113,   113,     3,     3,    66,
+     197,   195,    69,   104,    71,    72,     6,   113,    45,    76,
+     113,    78,    79,     6,    81,    82,    83,   160,    55,     6,
+     158,   159,   116,    90,   118,    92,    55,    94,    95,     6,
+     197,   104,    99,   100,   101,    72,   194,   195,   132,    76,
+     198,     6,   109,    72,    81,   112,   113,   172,   194,   116,
+     117,   118,   119,   195,   121,   195,   113,   195,   125,   197,
+     113,   128,   129,   197,   131,   132,   119,   113,   113,   136,
+     137,     4,   195,     0,   119,   113,   113,   130,   197,   197,
+     197,    99,   119,   113,   113,   130,   113,    99,    99,     3,
+     119,   197,    99,   113,   197,   162,   163,   164,   195,   195,
+      99,   198,   198,   113,   165,   158,   159,   168,   175,   176,
+     177,   178,   179,   158,   159,   182,   183,    92,   185,   186,
+     187,   188,   189,   190,   126,   192,   193,   194,   195,     0,
+     197,   198,     3,   162,   163,   164,   195,   112,     9,   198,
+     197,   116,   195,   118,   197,   195,    17,   195,    76,    99,
+     195,   197,   197,   195,   195,    26,   198,   132,   195,   197,
+     197,   195,   195,   195,   198,    76,   195,   197,   197,   198,
+     197,   195,   195,    92,    45,   198,   195,   197,   195,   198,
+      51,   198,   195,    54,    55,   198,   113,   197,     4,     5,
+       6,    76,   119,   112,    99,    66,    99,   116,    69,   118,
+      71,    72,     6,   130,   173,    76,   195,    78,    79,   198,
+      81,    82,    83,   132,   195,   195,   126,   198,   198,    90,
+     105,    92,   195,    94,    95,   198,   116,   195,    99,   100,
+     101,   158,   159,   194,   162,   163,   164,   195,   109,   195,
+     198,   112,   113,   195,   195,   116,   117,   118,   119,    70,
+     121,   162,   163,   164,   125,    24,   195,   128,   129,   198,
+     131,   132,   349,   339,   453,   136,   137,   195,   195,   399,
+     197,   195,    88,   195,   198,   495,   198,   162,   163,   164,
+     195,   248,   104,   198,   195,   360,   195,   198,   104,   198,
+     207,   162,   163,   164,   195,   195,   299,   198,   198,   121,
+     195,   353,   201,   198,   175,   176,   177,   178,   179,   584,
+     195,   182,   183,   104,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,   195,   197,   198,   198,     9,
+     121,   127,   127,   583,   150,   151,   152,    17,   264,   364,
+       4,     5,     6,     4,     5,     6,    26,   169,   170,   548,
+       0,   173,   138,   139,   140,   141,   142,   143,   195,     9,
+     195,   198,   104,   198,   195,    45,   195,   198,   276,   198,
+     186,    51,   194,   195,    54,    55,   198,   195,   169,   170,
+     198,    -1,   173,   199,    48,   195,    66,    48,   198,    69,
+     195,    71,    72,   198,   195,    45,    76,   198,    78,    79,
+      -1,    81,    82,    83,   195,    55,   195,   198,   195,   198,
+      90,   198,    92,   195,    94,    95,   198,    -1,    58,    99,
+     100,   101,    72,    63,    88,   195,    76,    88,   198,   109,
+      -1,    81,   112,   113,    -1,    -1,   116,   117,   118,   119,
+     104,   121,    -1,   104,   195,   125,    -1,   198,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,   104,    -1,
+      -1,    -1,    -1,   113,   104,    -1,    -1,    -1,    -1,   119,
+      -1,    -1,    -1,    -1,    -1,   121,    -1,   104,    -1,    -1,
+      -1,   121,   162,   163,   164,   125,   150,   151,   152,   150,
+     151,   152,    -1,    -1,   121,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,   104,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,   121,   186,   169,   170,   186,    -1,   173,    17,   169,
+     170,   195,    -1,   173,    -1,   199,    -1,    26,   199,    -1,
+      -1,     0,   169,   170,    -1,   195,   173,   197,   194,   195,
+       9,    -1,   198,    -1,    -1,   195,    45,    -1,   198,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,   194,   195,   169,
+     170,   198,    -1,   173,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    45,    76,    -1,    78,
+      79,    -1,    81,    82,    83,   195,    55,    -1,   198,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    72,    -1,    -1,    -1,    76,    -1,    -1,
+     109,    -1,    81,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,   104,    -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,
+     119,    -1,    -1,    -1,   104,    -1,    -1,    -1,   121,    -1,
+      26,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,   121,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,   104,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      66,     9,   121,    -1,    -1,    71,   169,   170,    -1,    17,
+     173,    -1,    78,    79,    -1,    -1,    82,    -1,    26,   169,
+     170,    -1,    -1,   173,    -1,    -1,   195,    -1,   197,    95,
+      -1,    -1,   195,    99,   100,   198,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,   195,    54,    55,   198,    -1,
+     169,   170,    -1,    -1,   173,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,   131,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,   195,    -1,    -1,   198,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    11,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      25,    -1,   104,    -1,    29,    30,    31,    32,    33,    -1,
+      35,   104,    -1,    -1,    -1,    -1,    -1,    -1,    43,   121,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,   121,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    68,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    86,     9,    88,    89,    -1,    -1,   169,   170,    -1,
+      17,   173,    -1,   104,    -1,    -1,   169,   170,   103,    26,
+     173,    -1,    -1,   108,    -1,   110,    -1,    -1,    -1,    -1,
+     121,    -1,   104,   195,    -1,   120,   198,    -1,    45,    -1,
+      -1,    -1,   195,    -1,    51,   198,    -1,    54,    55,   121,
+     104,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,   121,   153,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,   169,   170,
+      -1,    -1,   173,    90,    54,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,   169,   170,    -1,
+      -1,   173,   109,    -1,   195,   112,   113,   198,    -1,   116,
+     117,   118,   119,    -1,   121,   169,   170,    -1,   125,   173,
+      -1,   128,   129,   195,   131,   132,   198,    -1,    -1,   136,
+     137,   101,    -1,   104,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   195,    -1,    -1,   198,    -1,   116,    -1,    -1,    -1,
+     121,   121,    -1,    -1,    -1,   162,   163,   164,    -1,   129,
+      -1,    -1,    -1,    -1,    -1,    -1,   136,   137,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,   104,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,   121,    -1,    -1,    -1,   169,   170,
+      -1,    17,   173,    -1,   104,   175,   176,   177,   178,   179,
+      26,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,   121,   192,   104,   195,    -1,    -1,   198,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+     121,   104,   169,   170,    -1,    -1,   173,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,   121,    -1,
+      76,    -1,    78,    79,   104,    81,    82,    83,   195,   169,
+     170,   198,    -1,   173,    90,    -1,    92,    -1,    94,    95,
+      -1,   121,    -1,    99,   100,   101,    -1,    -1,   169,   170,
+      -1,    -1,   173,   109,    -1,   195,   112,   113,   198,    -1,
+     116,   117,   118,   119,    -1,   121,   169,   170,    -1,   125,
+     173,    -1,   128,   129,   195,   131,   132,   198,    -1,    -1,
+     136,   137,   104,    -1,   104,    -1,    -1,    -1,    -1,   169,
+     170,    -1,   195,   173,   104,   198,    -1,    -1,    -1,   121,
+     104,   121,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,   121,    -1,    -1,    -1,   195,    -1,   121,   198,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,   169,   170,   169,
+     170,   173,    17,   173,    -1,   104,    -1,    -1,    -1,   169,
+     170,    26,    -1,   173,    -1,   169,   170,    -1,    -1,   173,
+      -1,    -1,   121,   195,    -1,   195,   198,    -1,   198,    -1,
+      45,    -1,    -1,    -1,    -1,   195,    51,    -1,   198,    54,
+      55,   195,   104,    -1,   198,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,   121,
+      -1,    76,    -1,    78,    79,   104,    81,    82,    83,    -1,
+     169,   170,    -1,    -1,   173,    90,    -1,    92,    -1,    94,
+      95,    -1,   121,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,   195,   112,   113,   198,
+      -1,   116,   117,   118,   119,    -1,   121,   169,   170,    -1,
+     125,   173,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,   104,    -1,   104,    -1,    -1,    -1,    -1,
+     169,   170,    -1,   195,   173,   104,   198,    -1,    -1,    -1,
+     121,   104,   121,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,   121,    -1,    -1,    -1,   195,    -1,   121,   198,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,   169,   170,
+     169,   170,   173,    17,   173,    -1,   104,    -1,    -1,    -1,
+     169,   170,    26,    -1,   173,    -1,   169,   170,    -1,    -1,
+     173,    -1,    -1,   121,   195,    -1,   195,   198,    -1,   198,
+      -1,    45,    -1,    -1,    -1,    -1,   195,    51,    -1,   198,
+      54,    55,   195,   104,    -1,   198,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+     121,    -1,    76,    -1,    78,    79,   104,    81,    82,    83,
+      -1,   169,   170,    -1,    -1,   173,    90,    -1,    92,    -1,
+      94,    95,    -1,   121,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,   195,   112,   113,
+     198,    -1,   116,   117,   118,   119,    -1,   121,   169,   170,
+      -1,   125,   173,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,   104,    -1,   104,    -1,    -1,    -1,
+      -1,   169,   170,    -1,   195,   173,    -1,   198,    -1,    -1,
+      -1,   121,    -1,   121,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,   195,    -1,    -1,
+     198,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,   169,
+     170,   169,   170,   173,    17,   173,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   195,    -1,   195,   198,    -1,
+     198,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
+      -1,    -1,     3,   162,   163,   164,    -1,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    26,   185,   186,   187,   188,
+     189,   190,    -1,   192,   193,    -1,   195,    -1,   197,   198,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,     0,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    45,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    55,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    72,   125,    -1,    -1,    76,   129,    -1,
+     131,   132,    81,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,   113,    -1,    -1,   116,    -1,    -1,
+     119,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,   132,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,   195,    -1,   197,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,     0,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,     9,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,    55,    -1,     3,
+      -1,    -1,   162,   163,   164,     9,    -1,    -1,    -1,    -1,
+      -1,    69,    -1,    17,    72,   175,   176,   177,    76,    -1,
+      -1,    -1,    26,    81,    -1,   185,   186,   187,   188,   189,
+     190,    -1,   192,   193,    -1,   195,    -1,   197,   198,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,
+      -1,   119,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,   195,    -1,   197,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,   162,   163,
+     164,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,   175,   176,   177,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,   185,   186,   187,   188,   189,   190,    -1,   192,   193,
+      -1,   195,    -1,   197,   198,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,
+      -1,     3,    -1,    -1,   162,   163,   164,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,   175,   176,   177,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,   185,   186,   187,
+     188,   189,   190,    -1,   192,   193,    -1,   195,    -1,   197,
+     198,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,
+     162,   163,   164,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,   175,   176,   177,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,   185,   186,   187,   188,   189,   190,    -1,
+     192,   193,    -1,   195,    -1,   197,   198,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,     0,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,     9,    99,   100,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    45,    -1,
+     136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,
+      -1,    58,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,
+      -1,    -1,     9,    -1,    -1,    72,   162,   163,   164,    76,
+      17,    -1,    -1,    -1,    81,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,    -1,   192,   193,    45,   195,
+      -1,   197,   198,    -1,    51,    -1,   113,    54,    55,    -1,
+      -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,   133,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,   194,   195,   136,
+     197,   198,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,   162,   163,   164,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,    -1,   192,   193,    45,   195,    -1,
+     197,   198,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,     0,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+       9,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    45,    -1,   136,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,    -1,    58,
+      -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    72,   162,   163,   164,    76,    17,    -1,
+      -1,    -1,    81,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,    -1,   192,   193,    45,   195,    -1,   197,
+     198,    -1,    51,    -1,   113,    54,    55,    -1,    -1,    -1,
+     119,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,   133,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,   194,   195,   136,   197,   198,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+       0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,     9,
+      -1,    -1,    -1,   162,   163,   164,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,    -1,   192,   193,    45,   195,    -1,   197,   198,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
+      -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,
+      -1,    -1,   162,   163,   164,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,    -1,   192,   193,    45,   195,    -1,   197,   198,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,
+      -1,     3,    -1,    -1,    -1,    -1,     0,     9,    -1,    -1,
+      -1,   162,   163,   164,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+      -1,   192,   193,    45,   195,    -1,   197,   198,    -1,    51,
+      -1,    45,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    55,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    69,    78,    79,    72,    81,
+      82,    83,    76,    -1,    -1,    -1,    -1,    81,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   113,
+      -1,    -1,   116,   125,    -1,   119,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,   132,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,   195,    -1,   197,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,    -1,   131,
+     132,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,    -1,    58,
+      -1,   193,    -1,   195,    63,   197,   198,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    91,    -1,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,    -1,    -1,    -1,   104,    -1,    -1,    -1,     0,
+      -1,    -1,     3,    -1,   113,    -1,    -1,    -1,     9,    -1,
+     119,    -1,   121,    -1,   123,    -1,   125,    -1,    -1,    -1,
+      -1,    -1,   131,    -1,   133,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    55,    -1,    -1,    58,    -1,    -1,
+     169,   170,    63,    -1,   173,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,   194,   195,   196,   197,   198,
+      91,    -1,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+      -1,    -1,    -1,   104,    -1,     0,    -1,    -1,     3,    -1,
+      -1,    -1,   113,    -1,     9,    -1,    -1,    -1,   119,    -1,
+     121,    -1,   123,    -1,   125,    -1,    -1,    -1,    -1,    -1,
+     131,    26,   133,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   169,   170,
+      26,    66,   173,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    45,
+      -1,    -1,    -1,   194,   195,    -1,   197,   198,    -1,    55,
+      95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,   113,    -1,
+      76,    -1,    78,    79,   119,    81,    82,    83,    -1,    -1,
+     125,    -1,    -1,    -1,    -1,    -1,   131,    -1,     0,    95,
+      -1,    -1,    -1,    99,   100,    -1,     0,     9,    -1,     3,
+      -1,    -1,    -1,    -1,    -1,     9,    -1,   113,    -1,    -1,
+     116,    -1,    -1,   119,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   131,   132,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    55,    -1,    -1,    -1,    51,    -1,    -1,
+     195,    55,   197,   198,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    69,    78,    79,    72,    81,
+      82,    83,    76,    -1,    -1,    -1,    -1,    81,    -1,    83,
+      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,   195,
+      94,   197,   198,    -1,    -1,    -1,    -1,     0,    -1,    -1,
+      -1,   113,    -1,    -1,    -1,    -1,     9,   119,    -1,   113,
+      -1,    -1,   116,    -1,    -1,   119,    -1,    -1,    -1,   131,
+      -1,   125,    -1,    26,    -1,    -1,    -1,    -1,   132,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,     0,    76,    -1,    78,    79,    -1,    81,    82,
+      83,     9,   194,   195,    -1,   197,   198,    -1,    -1,   193,
+      -1,   195,    95,   197,   198,    -1,    99,   100,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     113,    -1,    -1,    -1,    -1,    -1,   119,    45,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,   131,    -1,
+      -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,     9,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,    55,    -1,
+      -1,   119,   195,    -1,   197,   198,    -1,    -1,    -1,    66,
+      -1,    -1,    69,   131,    71,    72,    -1,    -1,     0,    76,
+      -1,    78,    79,    -1,    81,    82,    83,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,
+      -1,    -1,    99,   100,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,
+      -1,    -1,   119,    45,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    55,   131,    -1,    -1,   195,    -1,   197,
+     198,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,     0,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,   113,    -1,    -1,    -1,    -1,    -1,   119,   195,    -1,
+     197,   198,    -1,    45,    -1,    -1,    -1,    -1,    -1,   131,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,     0,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,     9,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      -1,   113,    -1,   195,    55,   197,   198,   119,    -1,     3,
+       4,     5,     6,    -1,    -1,    66,    -1,    -1,    69,   131,
+      71,    72,    -1,    -1,     0,    76,    -1,    78,    79,    -1,
+      81,    82,    83,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,
+      26,    -1,    46,    47,    48,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,   119,    45,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,
+     131,    -1,    -1,   195,    -1,   197,   198,    -1,    -1,    -1,
+      66,    85,    -1,    69,    88,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,     0,    81,    82,    83,    -1,    -1,
+     104,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    95,
+      -1,   115,    -1,    99,   100,    -1,    -1,   121,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,
+      -1,   135,    -1,   119,   195,    -1,   197,   198,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,   131,   150,   151,   152,    55,
+      -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,     9,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    26,   186,   187,    -1,    -1,    -1,    -1,    -1,    95,
+     194,    -1,    -1,    99,   100,   199,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,   195,
+      55,   197,   198,   119,    -1,     3,     4,     5,     6,    -1,
+      -1,    66,    -1,    -1,    69,   131,    71,    72,    -1,    -1,
+       0,    76,    -1,    78,    79,    -1,    81,    82,    83,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      95,    -1,    -1,    -1,    99,   100,    26,    -1,    46,    47,
+      48,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,
+      -1,    -1,    -1,    -1,   119,    45,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    55,   131,    -1,    -1,   195,
+      -1,   197,   198,    -1,    -1,    -1,    66,    85,    -1,    69,
+      88,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+       0,    81,    82,    83,    -1,    -1,   104,    -1,    -1,     9,
+      -1,    -1,    -1,    -1,   112,    95,    -1,    -1,    -1,    99,
+     100,    -1,    -1,   121,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,   113,    -1,    -1,    -1,   135,    -1,   119,
+     195,    -1,   197,   198,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,   131,   150,   151,   152,    55,    -1,    -1,    -1,    -1,
+      -1,     0,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+       9,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    26,   186,   187,
+      -1,    -1,    -1,    -1,    -1,    95,   194,    -1,    -1,    99,
+     100,   199,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    -1,   113,    -1,   195,    55,   197,   198,   119,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,   131,    71,    72,    -1,    -1,     0,    76,    -1,    78,
+      79,    -1,    81,    -1,    83,     9,    -1,    -1,    -1,     0,
+      -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,     9,    -1,
+      99,   100,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,
+     119,    45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    55,    -1,    -1,    45,   195,    -1,   197,   198,    -1,
+      51,    -1,    66,    -1,    55,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    69,    83,
+      -1,    72,    -1,    -1,     0,    76,    -1,    -1,    -1,    -1,
+      81,    95,    83,     9,    -1,    99,   100,    -1,    -1,    -1,
+      -1,    -1,    -1,    94,    -1,    -1,    -1,    -1,    -1,   113,
+      -1,    -1,    -1,    -1,    -1,   119,   195,    -1,   197,   198,
+      -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,   119,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    -1,    55,
+      -1,     0,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    69,    -1,    -1,    72,    -1,    -1,    -1,
+      76,    -1,    -1,    -1,    -1,    81,    -1,    83,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    94,    -1,
+      -1,     0,    -1,    -1,    -1,    -1,    45,    -1,    -1,     0,
+       9,   195,    51,   197,   198,    -1,    55,   113,     9,    -1,
+      -1,    -1,   193,   119,   195,    -1,   197,   198,    -1,    -1,
+      69,    -1,    -1,    72,    -1,    -1,    -1,    76,    -1,    -1,
+      -1,    -1,    81,    -1,    83,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    45,    94,    55,    -1,    -1,    -1,
+      51,    -1,    -1,     0,    55,    -1,   162,   163,   164,    -1,
+      69,    -1,     9,    72,   113,    -1,    -1,    76,    69,    -1,
+     119,    72,    81,    -1,    83,    76,    -1,    -1,    -1,    -1,
+      81,    -1,    83,    -1,    -1,    94,    -1,   193,     0,   195,
+      -1,   197,   198,    94,    -1,    -1,    -1,     9,    45,    -1,
+      -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    55,    -1,
+     119,    -1,   113,   162,   163,   164,    -1,    -1,   119,    -1,
+      -1,    -1,    69,    -1,    -1,    72,    -1,    -1,    -1,    76,
+       0,    -1,    -1,    45,    81,    -1,    83,    -1,    -1,     9,
+      -1,    -1,    -1,    55,   193,    -1,   195,    94,   197,   198,
+       0,    -1,    -1,   162,   163,   164,    -1,    69,    -1,     9,
+      72,   162,   163,   164,    76,    -1,   113,    -1,    -1,    81,
+      -1,    83,   119,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    -1,    94,    -1,   193,    55,   195,    -1,   197,   198,
+      -1,    -1,   193,    -1,   195,    45,   197,   198,    -1,    69,
+      -1,   113,    72,    -1,    -1,    55,    76,   119,    -1,    -1,
+      -1,    81,    -1,    83,    -1,     0,    -1,    -1,    -1,    69,
+      -1,    -1,    72,    -1,     9,    -1,    76,    -1,    -1,    -1,
+      -1,    81,    -1,    83,    -1,     3,     4,     5,     6,    -1,
+      -1,    -1,    -1,   113,    12,    -1,    -1,    -1,   195,   119,
+     197,   198,    -1,    -1,    -1,    -1,     3,     4,     5,     6,
+      45,    -1,    -1,   113,    -1,    12,    -1,    -1,    -1,   119,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    46,    47,
+      48,    -1,    -1,   195,    69,   197,    -1,    72,    -1,    -1,
+      -1,    76,    -1,    -1,    -1,    -1,    81,    -1,    83,    46,
+      47,    48,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    85,    -1,    -1,
+      88,    -1,    -1,    -1,    -1,   195,    -1,   197,   113,    -1,
+      -1,    -1,    -1,    -1,   119,    -1,   104,    -1,    85,    -1,
+      -1,    88,    -1,    -1,    -1,   195,    -1,   197,    -1,    -1,
+      -1,    -1,    -1,   121,    -1,    -1,   124,   104,    -1,    -1,
+      -1,    -1,    -1,     3,     4,     5,     6,   135,    -1,    -1,
+      -1,    -1,    12,    -1,   121,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   150,   151,   152,    -1,    -1,    -1,   135,     3,
+       4,     5,     6,    -1,    -1,    -1,    -1,    -1,    12,    -1,
+      -1,    -1,    -1,   150,   151,   152,    46,    47,    48,    -1,
+     195,    -1,   197,    -1,    -1,    -1,    -1,    -1,   186,   187,
+      -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,    -1,    -1,
+      -1,   199,    46,    47,    48,    -1,    -1,    -1,    -1,   186,
+     187,    -1,    -1,    -1,    -1,    85,   193,   194,    88,    -1,
+      -1,    -1,   199,    -1,    -1,    -1,    -1,     3,     4,     5,
+       6,    -1,    -1,    -1,   104,    -1,    12,    -1,    -1,    -1,
+      -1,    85,    -1,    -1,    88,     3,     4,     5,     6,    -1,
+      -1,   121,    -1,    -1,    12,     3,     4,     5,     6,    -1,
+     104,    -1,    -1,    -1,    -1,   135,    -1,    -1,    -1,    -1,
+      46,    47,    48,    -1,    -1,    -1,    -1,   121,    -1,    -1,
+     150,   151,   152,    -1,    -1,    -1,    -1,    -1,    46,    47,
+      48,   135,    -1,    -1,    -1,    -1,    -1,    -1,    46,    47,
+      48,    -1,    -1,    -1,    -1,    -1,   150,   151,   152,    85,
+      58,    -1,    88,    -1,    -1,    -1,   186,   187,    -1,    -1,
+      -1,    -1,    -1,    -1,   194,   195,    -1,    85,   104,   199,
+      88,    -1,    -1,    -1,    -1,    -1,    -1,    85,    -1,    -1,
+      88,    -1,   186,   187,    -1,   121,   104,    -1,    -1,    -1,
+     194,   195,    -1,    -1,    -1,   199,   104,    -1,    -1,   135,
+      -1,    -1,    -1,   121,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   121,   150,   151,   152,   135,    -1,    -1,
+      -1,     3,     4,     5,     6,    -1,    -1,   135,    -1,    -1,
+      -1,    -1,   150,   151,   152,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   150,   151,   152,     3,     4,     5,     6,    -1,
+     186,   187,    -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,
+      -1,    -1,    -1,   199,    46,    47,    48,    -1,   186,   187,
+      -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,   186,   187,
+      -1,   199,    -1,    -1,    -1,    -1,   194,    -1,    46,    47,
+      48,   199,    -1,    -1,    -1,    -1,    -1,    -1,     3,     4,
+       5,     6,    -1,    85,    -1,    -1,    88,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   104,    -1,    -1,    -1,    -1,    85,    -1,    -1,
+      88,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   121,
+      -1,    46,    47,    48,    -1,    -1,   104,    -1,    -1,    -1,
+      -1,    -1,    -1,   135,    -1,    -1,    -1,    -1,     3,     4,
+       5,     6,    -1,   121,    -1,    -1,    -1,    -1,   150,   151,
+     152,    -1,    -1,    -1,    -1,    -1,    -1,   135,    -1,    -1,
+      85,    -1,    -1,    88,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   150,   151,   152,    -1,    -1,    -1,    -1,   104,
+      -1,    -1,    47,    48,   186,   187,    -1,    -1,    -1,    -1,
+      -1,    -1,   194,    -1,    -1,    -1,   121,   199,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   186,   187,
+     135,    -1,    -1,    -1,    -1,    -1,   194,    -1,    -1,    -1,
+      85,   199,    -1,    88,    -1,   150,   151,   152,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,   104,
+      -1,    -1,    -1,     7,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    15,    -1,    -1,    -1,    -1,   121,    -1,    22,    -1,
+      -1,   186,   187,    27,    -1,    -1,    -1,    -1,    -1,   194,
+     135,    -1,    -1,    37,   199,    -1,    40,    41,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   150,   151,   152,    52,    53,
+      -1,    -1,    -1,    -1,    58,    -1,    -1,    -1,    62,    -1,
+      -1,    65,    -1,    -1,    -1,     7,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    15,    -1,    -1,    -1,    -1,    -1,    -1,
+      22,   186,   187,    87,    -1,    27,    -1,    91,    -1,   194,
+      -1,    -1,    -1,    -1,   199,    37,    -1,    -1,    40,    41,
+      -1,    -1,    -1,   107,    -1,    -1,    -1,    -1,    -1,   113,
+      52,    53,    -1,    -1,    -1,    -1,    58,    -1,    -1,    -1,
+      62,    -1,    -1,    65,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    87,    -1,    -1,    -1,    91,
+      -1,   155,   156,   157,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   107,    -1,    -1,    -1,    -1,
+      -1,   113,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     194,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   155,   156,   157,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   194
 };
 
-  /* YYSTOS[STATE-NUM] -- The (internal number of the) accessing
-     symbol of state STATE-NUM.  */
-static const yytype_uint16 yystos[] =
+/* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
+   state STATE-NUM.  */
+static const yytype_int16 yystos[] =
 {
        0,     7,    15,    22,    27,    37,    40,    41,    52,    53,
-      62,    65,    87,    91,   107,   113,   155,   156,   157,   200,
-     201,   202,   203,   207,   209,   211,   212,   218,   219,   220,
-     233,   235,   238,   239,   240,   242,   245,   326,   327,    27,
-       3,   315,     3,     3,   315,    70,    80,   111,    94,    94,
-      98,   314,   315,    80,   193,   248,   315,    70,    80,   111,
-      19,    60,     3,   328,   329,   154,   208,   208,   208,     0,
-     196,   333,   113,   204,   204,    58,   248,   249,   253,     3,
-     195,   193,    94,   127,   221,   221,   221,   315,     3,   213,
-     315,   123,   127,   234,   248,   249,   133,    94,   133,   234,
-     234,   234,   315,   125,   197,   202,    97,   124,   266,     9,
-      45,    81,   250,   251,    76,   250,   261,     3,     4,     5,
-       6,    48,    88,   104,   150,   151,   152,   185,   198,   269,
-     270,   271,   272,   300,   301,   302,   303,   304,   305,   306,
-     307,   308,     4,   210,   121,     3,   316,   315,   315,    83,
-     258,    93,   193,   241,     3,   243,   244,    46,   315,   194,
-     194,     4,   214,   214,   214,     3,   315,   315,   248,   329,
-     193,     6,   304,    12,   254,   246,   247,   248,   253,   115,
-     252,   126,   246,    55,    72,   267,   138,   139,   140,   141,
-     142,   143,   144,   145,   146,   147,   148,   149,   293,   294,
-     295,   193,     4,     4,   303,   307,   194,   197,    46,   131,
-      94,   125,   193,   241,     3,    46,    47,    48,    85,   121,
-     135,   185,   186,   193,   274,   275,   276,   277,   278,   279,
-     280,   281,   283,   284,   285,   291,   292,   296,   297,   298,
-     299,   300,   214,     3,   334,    63,   249,   174,   197,   258,
-      91,   236,   237,   113,   193,   215,   215,   215,     3,   205,
-     206,   255,   268,   273,   274,   261,   250,   262,   263,   274,
-     261,   274,   115,   274,   119,   321,   322,   323,   272,   293,
-     271,   315,     3,   245,     3,   169,   170,   171,   222,   223,
-     224,   231,   125,   193,   195,   193,   193,   193,   112,   274,
-     282,    46,   121,   275,   191,   275,   249,   274,   116,   132,
-      17,    54,   101,   121,   128,   129,   136,   137,   174,   175,
-     176,   177,   178,   181,   182,   184,   185,   186,   187,   188,
-     189,   191,    98,   194,   197,   193,   274,   244,    39,   193,
-       3,    24,    49,   104,   216,   217,   258,   193,   194,   197,
-      94,   256,   257,   197,     3,   125,   319,   320,   267,   246,
-     197,    90,   117,   264,   267,    55,    55,    62,   134,   161,
-     172,   324,   323,   125,   193,    93,    11,    25,    29,    30,
+      62,    65,    87,    91,   107,   113,   155,   156,   157,   201,
+     202,   203,   204,   208,   210,   212,   213,   219,   220,   221,
+     234,   236,   239,   240,   241,   243,   246,   327,   328,    27,
+       3,   316,     3,     3,   316,    70,    80,   111,    94,    94,
+      98,   315,   316,    80,   194,   249,   316,    70,    80,   111,
+      19,    60,     3,   329,   330,   154,   209,   209,   209,     0,
+     197,   334,   113,   205,   205,    58,   249,   250,   254,     3,
+     196,   194,    94,   127,   222,   222,   222,   316,     3,   214,
+     316,   123,   127,   235,   249,   250,   133,    94,   133,   235,
+     235,   235,   316,   125,   198,   203,    97,   124,   267,     9,
+      45,    81,   251,   252,    76,   251,   262,     3,     4,     5,
+       6,    48,    88,   104,   150,   151,   152,   186,   199,   270,
+     271,   272,   273,   301,   302,   303,   304,   305,   306,   307,
+     308,   309,     4,   211,   121,     3,   317,   316,   316,    83,
+     259,    93,   194,   242,     3,   244,   245,    46,   316,   195,
+     195,     4,   215,   215,   215,     3,   316,   316,   249,   330,
+     194,     6,   305,    12,   255,   247,   248,   249,   254,   115,
+     253,   126,   247,    55,    72,   268,   138,   139,   140,   141,
+     142,   143,   144,   145,   146,   147,   148,   149,   294,   295,
+     296,   194,     4,     4,   304,   308,   195,   198,    46,   131,
+      94,   125,   194,   242,     3,    46,    47,    48,    85,   121,
+     135,   186,   187,   194,   275,   276,   277,   278,   279,   280,
+     281,   282,   284,   285,   286,   292,   293,   297,   298,   299,
+     300,   301,   215,     3,   335,    63,   250,   175,   198,   259,
+      91,   237,   238,   113,   194,   216,   216,   216,     3,   206,
+     207,   256,   269,   274,   275,   262,   251,   263,   264,   275,
+     262,   275,   115,   275,   119,   322,   323,   324,   273,   294,
+     272,   316,     3,   246,     3,   169,   170,   171,   223,   224,
+     225,   232,   125,   194,   196,   194,   194,   194,   112,   275,
+     283,    46,   121,   276,   192,   276,   250,   275,   116,   132,
+      17,    54,   101,   121,   128,   129,   136,   137,   175,   176,
+     177,   178,   179,   182,   183,   185,   186,   187,   188,   189,
+     190,   192,    98,   195,   198,   194,   275,   245,    39,   194,
+       3,    24,    49,   104,   217,   218,   259,   194,   195,   198,
+      94,   257,   258,   198,     3,   125,   320,   321,   268,   247,
+     198,    90,   117,   265,   268,    55,    55,    62,   134,   161,
+     172,   325,   324,   125,   194,    93,    11,    25,    29,    30,
       31,    32,    33,    35,    43,    68,    86,    88,    89,   103,
-     108,   110,   120,   153,   225,   193,   172,   172,   194,   197,
-     245,   194,   254,     3,   186,   249,   293,   274,   274,   282,
-      92,   112,   118,   193,   121,   268,   194,   194,   274,   274,
-     275,   275,   101,   128,   193,   104,   121,   275,   275,   275,
-     275,   275,   275,   275,   275,   275,   275,   275,   275,   275,
-     275,   275,   304,   315,     3,   270,   234,   216,     4,     4,
-     213,     4,   194,   197,   270,   206,   193,   309,   310,   311,
-     312,   313,   315,   330,   258,   273,     3,   263,     3,   265,
-     321,   274,   274,   172,   161,   130,   158,   159,   325,   225,
-     334,   214,   193,   193,   227,   193,   193,   193,   226,   104,
-     121,   169,   170,   173,   228,   229,   230,   232,   334,   193,
-     193,   223,    77,   286,   268,   193,   194,    94,   125,   109,
-      92,   118,   274,   274,   249,   192,   116,   275,   193,   249,
-     268,   104,   192,   194,     3,   194,    24,    49,   217,   194,
-     245,    26,    66,    71,    78,    79,    95,   100,   331,   197,
-     125,   317,   318,   319,    69,   259,     3,    62,   334,   160,
-     194,   194,     6,     6,     6,     6,     6,   104,   172,   315,
-     230,   232,   194,   334,   334,   193,   194,   194,   254,   274,
-     225,   274,   274,   118,   109,   194,   275,   249,   268,   194,
-     194,     4,   213,   194,    99,    78,    78,    78,    99,   310,
-       3,   126,   325,   194,   194,   197,   194,   194,   194,   241,
-     194,   194,   105,   287,   286,   286,   268,   194,   194,   118,
-     274,   194,   194,   318,   311,   310,   193,   268,     6,   232,
-     126,   261,   194,    82,   131,   334,    51,   260,   194,   268,
-     162,   163,   164,   288,   289,   286,   193,   274,   332,   194,
-     274,   194,     6,    17,   165,   168,   290,   334,   166,   167,
-     290,   166,   167,   194,   116,   290
+     108,   110,   120,   153,   226,   194,   172,   172,   195,   198,
+     246,   195,   255,     3,   187,   250,   294,   275,   275,   283,
+      92,   112,   118,   194,   121,   269,   195,   195,   275,   275,
+     276,   276,   101,   128,   194,   104,   121,   276,   276,   276,
+     276,   276,   276,   276,   276,   276,   276,   276,   276,   276,
+     276,   276,   305,   316,     3,   271,   235,   217,     4,     4,
+     214,     4,   195,   198,   271,   207,   194,   310,   311,   312,
+     313,   314,   316,   331,   259,   274,     3,   264,     3,   266,
+     322,   275,   275,   172,   161,   130,   158,   159,   326,   226,
+     335,   215,   194,   194,   228,   194,   194,   194,   227,   104,
+     121,   169,   170,   173,   229,   230,   231,   233,   335,   194,
+     194,   224,    77,   287,   269,   194,   195,    94,   125,   109,
+      92,   118,   275,   275,   250,   193,   116,   276,   194,   250,
+     269,   104,   193,   195,     3,   195,    24,    49,   218,   195,
+     246,    26,    66,    71,    78,    79,    95,   100,   332,   198,
+     125,   318,   319,   320,    69,   260,     3,    62,   335,   160,
+     195,   195,     6,     6,     6,     6,     6,   104,   172,   316,
+     231,   233,   195,   335,   335,   194,   195,   195,   255,   275,
+     226,   275,   275,   118,   109,   195,   276,   250,   269,   195,
+     195,     4,   214,   195,    99,    78,    78,    78,    99,   311,
+       3,   126,   326,   195,   195,   198,   195,   195,   195,   242,
+     195,   195,   105,   288,   287,   287,   269,   195,   195,   118,
+     275,   195,   195,   319,   312,   311,   194,   269,     6,   233,
+     126,   262,   195,    82,   131,   335,    51,   261,   195,   269,
+     162,   163,   164,   289,   290,   287,   194,   275,   333,   195,
+     275,   195,     6,    17,   165,   168,   291,   335,   166,   167,
+     291,   166,   167,   195,   116,   291
 };
 
-  /* YYR1[YYN] -- Symbol number of symbol that rule YYN derives.  */
-static const yytype_uint16 yyr1[] =
+/* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
+static const yytype_int16 yyr1[] =
 {
-       0,   199,   200,   201,   201,   202,   202,   202,   202,   202,
-     203,   203,   203,   203,   203,   203,   203,   203,   203,   203,
-     204,   204,   205,   205,   206,   206,   207,   207,   207,   208,
-     208,   209,   210,   211,   211,   212,   212,   213,   214,   215,
-     215,   215,   216,   216,   216,   216,   216,   216,   217,   217,
-     218,   218,   219,   219,   219,   220,   220,   220,   220,   220,
-     221,   221,   222,   222,   223,   223,   224,   225,   225,   225,
-     225,   225,   225,   225,   225,   225,   225,   225,   225,   225,
-     225,   225,   225,   225,   225,   226,   226,   227,   227,   227,
-     228,   228,   229,   229,   229,   229,   230,   230,   230,   230,
-     231,   231,   231,   232,   233,   233,   233,   233,   234,   234,
-     235,   236,   237,   238,   239,   240,   240,   241,   241,   242,
-     243,   243,   244,   245,   245,   245,   246,   246,   247,   247,
-     248,   248,   249,   249,   250,   251,   251,   251,   252,   252,
-     253,   254,   254,   255,   256,   256,   257,   258,   258,   259,
-     259,   260,   260,   261,   261,   262,   262,   263,   264,   264,
-     264,   265,   265,   266,   266,   267,   267,   267,   267,   267,
-     267,   268,   268,   269,   269,   270,   270,   271,   271,   272,
-     272,   272,   273,   274,   274,   274,   274,   274,   275,   275,
-     275,   275,   275,   275,   275,   275,   275,   275,   275,   276,
-     276,   277,   277,   277,   277,   277,   278,   278,   278,   278,
-     278,   278,   278,   278,   278,   278,   278,   279,   279,   280,
-     280,   280,   280,   281,   281,   281,   281,   282,   282,   283,
-     283,   284,   284,   284,   284,   284,   284,   284,   285,   285,
-     285,   285,   286,   286,   287,   287,   288,   288,   288,   289,
-     289,   289,   290,   290,   290,   290,   290,   291,   292,   293,
-     293,   293,   293,   293,   293,   294,   294,   294,   294,   294,
-     294,   295,   295,   296,   297,   298,   299,   299,   299,   299,
-     300,   300,   300,   300,   300,   300,   300,   301,   302,   302,
-     303,   303,   304,   305,   306,   307,   307,   307,   308,   309,
-     309,   310,   310,   311,   311,   312,   312,   313,   314,   315,
-     315,   316,   316,   317,   317,   318,   318,   319,   319,   320,
-     320,   321,   321,   322,   322,   323,   323,   324,   324,   324,
-     324,   325,   325,   325,   326,   326,   327,   328,   328,   329,
-     330,   330,   330,   331,   331,   331,   331,   331,   331,   331,
-     331,   331,   331,   332,   333,   333,   334,   334
+       0,   200,   201,   202,   202,   203,   203,   203,   203,   203,
+     204,   204,   204,   204,   204,   204,   204,   204,   204,   204,
+     205,   205,   206,   206,   207,   207,   208,   208,   208,   209,
+     209,   210,   211,   212,   212,   213,   213,   214,   215,   216,
+     216,   216,   217,   217,   217,   217,   217,   217,   218,   218,
+     219,   219,   220,   220,   220,   221,   221,   221,   221,   221,
+     222,   222,   223,   223,   224,   224,   225,   226,   226,   226,
+     226,   226,   226,   226,   226,   226,   226,   226,   226,   226,
+     226,   226,   226,   226,   226,   227,   227,   228,   228,   228,
+     229,   229,   230,   230,   230,   230,   231,   231,   231,   231,
+     232,   232,   232,   233,   234,   234,   234,   234,   235,   235,
+     236,   237,   238,   239,   240,   241,   241,   242,   242,   243,
+     244,   244,   245,   246,   246,   246,   247,   247,   248,   248,
+     249,   249,   250,   250,   251,   252,   252,   252,   253,   253,
+     254,   255,   255,   256,   257,   257,   258,   259,   259,   260,
+     260,   261,   261,   262,   262,   263,   263,   264,   265,   265,
+     265,   266,   266,   267,   267,   268,   268,   268,   268,   268,
+     268,   269,   269,   270,   270,   271,   271,   272,   272,   273,
+     273,   273,   274,   275,   275,   275,   275,   275,   276,   276,
+     276,   276,   276,   276,   276,   276,   276,   276,   276,   277,
+     277,   278,   278,   278,   278,   278,   279,   279,   279,   279,
+     279,   279,   279,   279,   279,   279,   279,   280,   280,   281,
+     281,   281,   281,   282,   282,   282,   282,   283,   283,   284,
+     284,   285,   285,   285,   285,   285,   285,   285,   286,   286,
+     286,   286,   287,   287,   288,   288,   289,   289,   289,   290,
+     290,   290,   291,   291,   291,   291,   291,   292,   293,   294,
+     294,   294,   294,   294,   294,   295,   295,   295,   295,   295,
+     295,   296,   296,   297,   298,   299,   300,   300,   300,   300,
+     301,   301,   301,   301,   301,   301,   301,   302,   303,   303,
+     304,   304,   305,   306,   307,   308,   308,   308,   309,   310,
+     310,   311,   311,   312,   312,   313,   313,   314,   315,   316,
+     316,   317,   317,   318,   318,   319,   319,   320,   320,   321,
+     321,   322,   322,   323,   323,   324,   324,   325,   325,   325,
+     325,   326,   326,   326,   327,   327,   328,   329,   329,   330,
+     331,   331,   331,   332,   332,   332,   332,   332,   332,   332,
+     332,   332,   332,   333,   334,   334,   335,   335
 };
 
-  /* YYR2[YYN] -- Number of symbols on the right hand side of rule YYN.  */
-static const yytype_uint8 yyr2[] =
+/* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
+static const yytype_int8 yyr2[] =
 {
        0,     2,     2,     1,     3,     2,     2,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
@@ -1448,39 +5587,39 @@ static const yytype_uint8 yyr2[] =
 };
 
 
+enum { YYENOMEM = -2 };
+
 #define yyerrok         (yyerrstatus = 0)
-#define yyclearin       (yychar = YYEMPTY)
-#define YYEMPTY         (-2)
-#define YYEOF           0
+#define yyclearin       (yychar = SQL_HSQL_EMPTY)
 
 #define YYACCEPT        goto yyacceptlab
 #define YYABORT         goto yyabortlab
 #define YYERROR         goto yyerrorlab
+#define YYNOMEM         goto yyexhaustedlab
 
 
 #define YYRECOVERING()  (!!yyerrstatus)
 
-#define YYBACKUP(Token, Value)                                  \
-do                                                              \
-  if (yychar == YYEMPTY)                                        \
-    {                                                           \
-      yychar = (Token);                                         \
-      yylval = (Value);                                         \
-      YYPOPSTACK (yylen);                                       \
-      yystate = *yyssp;                                         \
-      goto yybackup;                                            \
-    }                                                           \
-  else                                                          \
-    {                                                           \
-      yyerror (&yylloc, result, scanner, YY_("syntax error: cannot back up")); \
-      YYERROR;                                                  \
-    }                                                           \
-while (0)
-
-/* Error token number */
-#define YYTERROR        1
-#define YYERRCODE       256
-
+#define YYBACKUP(Token, Value)                                    \
+  do                                                              \
+    if (yychar == SQL_HSQL_EMPTY)                                        \
+      {                                                           \
+        yychar = (Token);                                         \
+        yylval = (Value);                                         \
+        YYPOPSTACK (yylen);                                       \
+        yystate = *yyssp;                                         \
+        goto yybackup;                                            \
+      }                                                           \
+    else                                                          \
+      {                                                           \
+        yyerror (&yylloc, result, scanner, YY_("syntax error: cannot back up")); \
+        YYERROR;                                                  \
+      }                                                           \
+  while (0)
+
+/* Backward compatibility with an undocumented macro.
+   Use SQL_HSQL_error or SQL_HSQL_UNDEF. */
+#define YYERRCODE SQL_HSQL_UNDEF
 
 /* YYLLOC_DEFAULT -- Set CURRENT to span from RHS[1] to RHS[N].
    If N is 0, then set CURRENT to the empty location which ends
@@ -1524,20 +5663,27 @@ do {                                            \
 } while (0)
 
 
-/* YY_LOCATION_PRINT -- Print the location on the stream.
+/* YYLOCATION_PRINT -- Print the location on the stream.
    This macro was not mandated originally: define only if we know
    we won't break user code: when these are the locations we know.  */
 
-#ifndef YY_LOCATION_PRINT
-# if defined HSQL_LTYPE_IS_TRIVIAL && HSQL_LTYPE_IS_TRIVIAL
+# ifndef YYLOCATION_PRINT
+
+#  if defined YY_LOCATION_PRINT
+
+   /* Temporary convenience wrapper in case some people defined the
+      undocumented and private YY_LOCATION_PRINT macros.  */
+#   define YYLOCATION_PRINT(File, Loc)  YY_LOCATION_PRINT(File, *(Loc))
+
+#  elif defined HSQL_LTYPE_IS_TRIVIAL && HSQL_LTYPE_IS_TRIVIAL
 
 /* Print *YYLOCP on YYO.  Private, do not rely on its existence. */
 
 YY_ATTRIBUTE_UNUSED
-static unsigned
+static int
 yy_location_print_ (FILE *yyo, YYLTYPE const * const yylocp)
 {
-  unsigned res = 0;
+  int res = 0;
   int end_col = 0 != yylocp->last_column ? yylocp->last_column - 1 : 0;
   if (0 <= yylocp->first_line)
     {
@@ -1557,65 +5703,73 @@ yy_location_print_ (FILE *yyo, YYLTYPE const * const yylocp)
         res += YYFPRINTF (yyo, "-%d", end_col);
     }
   return res;
- }
+}
 
-#  define YY_LOCATION_PRINT(File, Loc)          \
-  yy_location_print_ (File, &(Loc))
+#   define YYLOCATION_PRINT  yy_location_print_
 
-# else
-#  define YY_LOCATION_PRINT(File, Loc) ((void) 0)
-# endif
-#endif
+    /* Temporary convenience wrapper in case some people defined the
+       undocumented and private YY_LOCATION_PRINT macros.  */
+#   define YY_LOCATION_PRINT(File, Loc)  YYLOCATION_PRINT(File, &(Loc))
+
+#  else
+
+#   define YYLOCATION_PRINT(File, Loc) ((void) 0)
+    /* Temporary convenience wrapper in case some people defined the
+       undocumented and private YY_LOCATION_PRINT macros.  */
+#   define YY_LOCATION_PRINT  YYLOCATION_PRINT
+
+#  endif
+# endif /* !defined YYLOCATION_PRINT */
 
 
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)                    \
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)                    \
 do {                                                                      \
   if (yydebug)                                                            \
     {                                                                     \
       YYFPRINTF (stderr, "%s ", Title);                                   \
       yy_symbol_print (stderr,                                            \
-                  Type, Value, Location, result, scanner); \
+                  Kind, Value, Location, result, scanner); \
       YYFPRINTF (stderr, "\n");                                           \
     }                                                                     \
 } while (0)
 
 
-/*----------------------------------------.
-| Print this symbol's value on YYOUTPUT.  |
-`----------------------------------------*/
+/*-----------------------------------.
+| Print this symbol's value on YYO.  |
+`-----------------------------------*/
 
 static void
-yy_symbol_value_print (FILE *yyoutput, int yytype, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
+yy_symbol_value_print (FILE *yyo,
+                       yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  FILE *yyo = yyoutput;
-  YYUSE (yyo);
-  YYUSE (yylocationp);
-  YYUSE (result);
-  YYUSE (scanner);
+  FILE *yyoutput = yyo;
+  YY_USE (yyoutput);
+  YY_USE (yylocationp);
+  YY_USE (result);
+  YY_USE (scanner);
   if (!yyvaluep)
     return;
-# ifdef YYPRINT
-  if (yytype < YYNTOKENS)
-    YYPRINT (yyoutput, yytoknum[yytype], *yyvaluep);
-# endif
-  YYUSE (yytype);
+  YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
+  YY_USE (yykind);
+  YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
 
-/*--------------------------------.
-| Print this symbol on YYOUTPUT.  |
-`--------------------------------*/
+/*---------------------------.
+| Print this symbol on YYO.  |
+`---------------------------*/
 
 static void
-yy_symbol_print (FILE *yyoutput, int yytype, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
+yy_symbol_print (FILE *yyo,
+                 yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  YYFPRINTF (yyoutput, "%s %s (",
-             yytype < YYNTOKENS ? "token" : "nterm", yytname[yytype]);
+  YYFPRINTF (yyo, "%s %s (",
+             yykind < YYNTOKENS ? "token" : "nterm", yysymbol_name (yykind));
 
-  YY_LOCATION_PRINT (yyoutput, *yylocationp);
-  YYFPRINTF (yyoutput, ": ");
-  yy_symbol_value_print (yyoutput, yytype, yyvaluep, yylocationp, result, scanner);
-  YYFPRINTF (yyoutput, ")");
+  YYLOCATION_PRINT (yyo, yylocationp);
+  YYFPRINTF (yyo, ": ");
+  yy_symbol_value_print (yyo, yykind, yyvaluep, yylocationp, result, scanner);
+  YYFPRINTF (yyo, ")");
 }
 
 /*------------------------------------------------------------------.
@@ -1624,7 +5778,7 @@ yy_symbol_print (FILE *yyoutput, int yytype, YYSTYPE const * const yyvaluep, YYL
 `------------------------------------------------------------------*/
 
 static void
-yy_stack_print (yytype_int16 *yybottom, yytype_int16 *yytop)
+yy_stack_print (yy_state_t *yybottom, yy_state_t *yytop)
 {
   YYFPRINTF (stderr, "Stack now");
   for (; yybottom <= yytop; yybottom++)
@@ -1647,21 +5801,22 @@ do {                                                            \
 `------------------------------------------------*/
 
 static void
-yy_reduce_print (yytype_int16 *yyssp, YYSTYPE *yyvsp, YYLTYPE *yylsp, int yyrule, hsql::SQLParserResult* result, yyscan_t scanner)
+yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, YYLTYPE *yylsp,
+                 int yyrule, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  unsigned long int yylno = yyrline[yyrule];
+  int yylno = yyrline[yyrule];
   int yynrhs = yyr2[yyrule];
   int yyi;
-  YYFPRINTF (stderr, "Reducing stack by rule %d (line %lu):\n",
+  YYFPRINTF (stderr, "Reducing stack by rule %d (line %d):\n",
              yyrule - 1, yylno);
   /* The symbols being reduced.  */
   for (yyi = 0; yyi < yynrhs; yyi++)
     {
       YYFPRINTF (stderr, "   $%d = ", yyi + 1);
       yy_symbol_print (stderr,
-                       yystos[yyssp[yyi + 1 - yynrhs]],
-                       &(yyvsp[(yyi + 1) - (yynrhs)])
-                       , &(yylsp[(yyi + 1) - (yynrhs)])                       , result, scanner);
+                       YY_ACCESSING_SYMBOL (+yyssp[yyi + 1 - yynrhs]),
+                       &yyvsp[(yyi + 1) - (yynrhs)],
+                       &(yylsp[(yyi + 1) - (yynrhs)]), result, scanner);
       YYFPRINTF (stderr, "\n");
     }
 }
@@ -1676,8 +5831,8 @@ do {                                    \
    multiple parsers can coexist.  */
 int yydebug;
 #else /* !HSQL_DEBUG */
-# define YYDPRINTF(Args)
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)
+# define YYDPRINTF(Args) ((void) 0)
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)
 # define YY_STACK_PRINT(Bottom, Top)
 # define YY_REDUCE_PRINT(Rule)
 #endif /* !HSQL_DEBUG */
@@ -1700,28 +5855,77 @@ int yydebug;
 #endif
 
 
-#if YYERROR_VERBOSE
+/* Context of a parse error.  */
+typedef struct
+{
+  yy_state_t *yyssp;
+  yysymbol_kind_t yytoken;
+  YYLTYPE *yylloc;
+} yypcontext_t;
+
+/* Put in YYARG at most YYARGN of the expected tokens given the
+   current YYCTX, and return the number of tokens stored in YYARG.  If
+   YYARG is null, return the number of expected tokens (guaranteed to
+   be less than YYNTOKENS).  Return YYENOMEM on memory exhaustion.
+   Return 0 if there are more than YYARGN expected tokens, yet fill
+   YYARG up to YYARGN. */
+static int
+yypcontext_expected_tokens (const yypcontext_t *yyctx,
+                            yysymbol_kind_t yyarg[], int yyargn)
+{
+  /* Actual size of YYARG. */
+  int yycount = 0;
+  int yyn = yypact[+*yyctx->yyssp];
+  if (!yypact_value_is_default (yyn))
+    {
+      /* Start YYX at -YYN if negative to avoid negative indexes in
+         YYCHECK.  In other words, skip the first -YYN actions for
+         this state because they are default actions.  */
+      int yyxbegin = yyn < 0 ? -yyn : 0;
+      /* Stay within bounds of both yycheck and yytname.  */
+      int yychecklim = YYLAST - yyn + 1;
+      int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
+      int yyx;
+      for (yyx = yyxbegin; yyx < yyxend; ++yyx)
+        if (yycheck[yyx + yyn] == yyx && yyx != YYSYMBOL_YYerror
+            && !yytable_value_is_error (yytable[yyx + yyn]))
+          {
+            if (!yyarg)
+              ++yycount;
+            else if (yycount == yyargn)
+              return 0;
+            else
+              yyarg[yycount++] = YY_CAST (yysymbol_kind_t, yyx);
+          }
+    }
+  if (yyarg && yycount == 0 && 0 < yyargn)
+    yyarg[0] = YYSYMBOL_YYEMPTY;
+  return yycount;
+}
 
-# ifndef yystrlen
-#  if defined __GLIBC__ && defined _STRING_H
-#   define yystrlen strlen
-#  else
+
+
+
+#ifndef yystrlen
+# if defined __GLIBC__ && defined _STRING_H
+#  define yystrlen(S) (YY_CAST (YYPTRDIFF_T, strlen (S)))
+# else
 /* Return the length of YYSTR.  */
-static YYSIZE_T
+static YYPTRDIFF_T
 yystrlen (const char *yystr)
 {
-  YYSIZE_T yylen;
+  YYPTRDIFF_T yylen;
   for (yylen = 0; yystr[yylen]; yylen++)
     continue;
   return yylen;
 }
-#  endif
 # endif
+#endif
 
-# ifndef yystpcpy
-#  if defined __GLIBC__ && defined _STRING_H && defined _GNU_SOURCE
-#   define yystpcpy stpcpy
-#  else
+#ifndef yystpcpy
+# if defined __GLIBC__ && defined _STRING_H && defined _GNU_SOURCE
+#  define yystpcpy stpcpy
+# else
 /* Copy YYSRC to YYDEST, returning the address of the terminating '\0' in
    YYDEST.  */
 static char *
@@ -1735,10 +5939,10 @@ yystpcpy (char *yydest, const char *yysrc)
 
   return yyd - 1;
 }
-#  endif
 # endif
+#endif
 
-# ifndef yytnamerr
+#ifndef yytnamerr
 /* Copy to YYRES the contents of YYSTR after stripping away unnecessary
    quotes and backslashes, so that it's suitable for yyerror.  The
    heuristic is that double-quoting is unnecessary unless the string
@@ -1746,14 +5950,13 @@ yystpcpy (char *yydest, const char *yysrc)
    backslash-backslash).  YYSTR is taken from yytname.  If YYRES is
    null, do not copy; instead, return the length of what the result
    would have been.  */
-static YYSIZE_T
+static YYPTRDIFF_T
 yytnamerr (char *yyres, const char *yystr)
 {
   if (*yystr == '"')
     {
-      YYSIZE_T yyn = 0;
+      YYPTRDIFF_T yyn = 0;
       char const *yyp = yystr;
-
       for (;;)
         switch (*++yyp)
           {
@@ -1764,7 +5967,10 @@ yytnamerr (char *yyres, const char *yystr)
           case '\\':
             if (*++yyp != '\\')
               goto do_not_strip_quotes;
-            /* Fall through.  */
+            else
+              goto append;
+
+          append:
           default:
             if (yyres)
               yyres[yyn] = *yyp;
@@ -1779,36 +5985,20 @@ yytnamerr (char *yyres, const char *yystr)
     do_not_strip_quotes: ;
     }
 
-  if (! yyres)
+  if (yyres)
+    return yystpcpy (yyres, yystr) - yyres;
+  else
     return yystrlen (yystr);
-
-  return yystpcpy (yyres, yystr) - yyres;
 }
-# endif
+#endif
 
-/* Copy into *YYMSG, which is of size *YYMSG_ALLOC, an error message
-   about the unexpected token YYTOKEN for the state stack whose top is
-   YYSSP.
 
-   Return 0 if *YYMSG was successfully written.  Return 1 if *YYMSG is
-   not large enough to hold the message.  In that case, also set
-   *YYMSG_ALLOC to the required number of bytes.  Return 2 if the
-   required number of bytes is too large to store.  */
 static int
-yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
-                yytype_int16 *yyssp, int yytoken)
+yy_syntax_error_arguments (const yypcontext_t *yyctx,
+                           yysymbol_kind_t yyarg[], int yyargn)
 {
-  YYSIZE_T yysize0 = yytnamerr (YY_NULLPTR, yytname[yytoken]);
-  YYSIZE_T yysize = yysize0;
-  enum { YYERROR_VERBOSE_ARGS_MAXIMUM = 5 };
-  /* Internationalized format string. */
-  const char *yyformat = YY_NULLPTR;
-  /* Arguments of yyformat. */
-  char const *yyarg[YYERROR_VERBOSE_ARGS_MAXIMUM];
-  /* Number of reported tokens (one for the "unexpected", one per
-     "expected"). */
+  /* Actual size of YYARG. */
   int yycount = 0;
-
   /* There are many possibilities here to consider:
      - If this state is a consistent state with a default action, then
        the only way this function was invoked is if the default action
@@ -1832,63 +6022,78 @@ yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
        one exception: it will still contain any token that will not be
        accepted due to an error action in a later state.
   */
-  if (yytoken != YYEMPTY)
-    {
-      int yyn = yypact[*yyssp];
-      yyarg[yycount++] = yytname[yytoken];
-      if (!yypact_value_is_default (yyn))
-        {
-          /* Start YYX at -YYN if negative to avoid negative indexes in
-             YYCHECK.  In other words, skip the first -YYN actions for
-             this state because they are default actions.  */
-          int yyxbegin = yyn < 0 ? -yyn : 0;
-          /* Stay within bounds of both yycheck and yytname.  */
-          int yychecklim = YYLAST - yyn + 1;
-          int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
-          int yyx;
-
-          for (yyx = yyxbegin; yyx < yyxend; ++yyx)
-            if (yycheck[yyx + yyn] == yyx && yyx != YYTERROR
-                && !yytable_value_is_error (yytable[yyx + yyn]))
-              {
-                if (yycount == YYERROR_VERBOSE_ARGS_MAXIMUM)
-                  {
-                    yycount = 1;
-                    yysize = yysize0;
-                    break;
-                  }
-                yyarg[yycount++] = yytname[yyx];
-                {
-                  YYSIZE_T yysize1 = yysize + yytnamerr (YY_NULLPTR, yytname[yyx]);
-                  if (! (yysize <= yysize1
-                         && yysize1 <= YYSTACK_ALLOC_MAXIMUM))
-                    return 2;
-                  yysize = yysize1;
-                }
-              }
-        }
+  if (yyctx->yytoken != YYSYMBOL_YYEMPTY)
+    {
+      int yyn;
+      if (yyarg)
+        yyarg[yycount] = yyctx->yytoken;
+      ++yycount;
+      yyn = yypcontext_expected_tokens (yyctx,
+                                        yyarg ? yyarg + 1 : yyarg, yyargn - 1);
+      if (yyn == YYENOMEM)
+        return YYENOMEM;
+      else
+        yycount += yyn;
     }
+  return yycount;
+}
+
+/* Copy into *YYMSG, which is of size *YYMSG_ALLOC, an error message
+   about the unexpected token YYTOKEN for the state stack whose top is
+   YYSSP.
+
+   Return 0 if *YYMSG was successfully written.  Return -1 if *YYMSG is
+   not large enough to hold the message.  In that case, also set
+   *YYMSG_ALLOC to the required number of bytes.  Return YYENOMEM if the
+   required number of bytes is too large to store.  */
+static int
+yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
+                const yypcontext_t *yyctx)
+{
+  enum { YYARGS_MAX = 5 };
+  /* Internationalized format string. */
+  const char *yyformat = YY_NULLPTR;
+  /* Arguments of yyformat: reported tokens (one for the "unexpected",
+     one per "expected"). */
+  yysymbol_kind_t yyarg[YYARGS_MAX];
+  /* Cumulated lengths of YYARG.  */
+  YYPTRDIFF_T yysize = 0;
+
+  /* Actual size of YYARG. */
+  int yycount = yy_syntax_error_arguments (yyctx, yyarg, YYARGS_MAX);
+  if (yycount == YYENOMEM)
+    return YYENOMEM;
 
   switch (yycount)
     {
-# define YYCASE_(N, S)                      \
+#define YYCASE_(N, S)                       \
       case N:                               \
         yyformat = S;                       \
-      break
+        break
+    default: /* Avoid compiler warnings. */
       YYCASE_(0, YY_("syntax error"));
       YYCASE_(1, YY_("syntax error, unexpected %s"));
       YYCASE_(2, YY_("syntax error, unexpected %s, expecting %s"));
       YYCASE_(3, YY_("syntax error, unexpected %s, expecting %s or %s"));
       YYCASE_(4, YY_("syntax error, unexpected %s, expecting %s or %s or %s"));
       YYCASE_(5, YY_("syntax error, unexpected %s, expecting %s or %s or %s or %s"));
-# undef YYCASE_
+#undef YYCASE_
     }
 
+  /* Compute error message size.  Don't count the "%s"s, but reserve
+     room for the terminator.  */
+  yysize = yystrlen (yyformat) - 2 * yycount + 1;
   {
-    YYSIZE_T yysize1 = yysize + yystrlen (yyformat);
-    if (! (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM))
-      return 2;
-    yysize = yysize1;
+    int yyi;
+    for (yyi = 0; yyi < yycount; ++yyi)
+      {
+        YYPTRDIFF_T yysize1
+          = yysize + yytnamerr (YY_NULLPTR, yytname[yyarg[yyi]]);
+        if (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM)
+          yysize = yysize1;
+        else
+          return YYENOMEM;
+      }
   }
 
   if (*yymsg_alloc < yysize)
@@ -1897,7 +6102,7 @@ yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
       if (! (yysize <= *yymsg_alloc
              && *yymsg_alloc <= YYSTACK_ALLOC_MAXIMUM))
         *yymsg_alloc = YYSTACK_ALLOC_MAXIMUM;
-      return 1;
+      return -1;
     }
 
   /* Avoid sprintf, as that infringes on the user's name space.
@@ -1909,64 +6114,65 @@ yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
     while ((*yyp = *yyformat) != '\0')
       if (*yyp == '%' && yyformat[1] == 's' && yyi < yycount)
         {
-          yyp += yytnamerr (yyp, yyarg[yyi++]);
+          yyp += yytnamerr (yyp, yytname[yyarg[yyi++]]);
           yyformat += 2;
         }
       else
         {
-          yyp++;
-          yyformat++;
+          ++yyp;
+          ++yyformat;
         }
   }
   return 0;
 }
-#endif /* YYERROR_VERBOSE */
+
 
 /*-----------------------------------------------.
 | Release the memory associated to this symbol.  |
 `-----------------------------------------------*/
 
 static void
-yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
+yydestruct (const char *yymsg,
+            yysymbol_kind_t yykind, YYSTYPE *yyvaluep, YYLTYPE *yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  YYUSE (yyvaluep);
-  YYUSE (yylocationp);
-  YYUSE (result);
-  YYUSE (scanner);
+  YY_USE (yyvaluep);
+  YY_USE (yylocationp);
+  YY_USE (result);
+  YY_USE (scanner);
   if (!yymsg)
     yymsg = "Deleting";
-  YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
+  YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  switch (yytype)
+  switch (yykind)
     {
-          case 3: /* IDENTIFIER  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 1947 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 199 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 6153 "bison_parser.cpp"
         break;
 
-    case 4: /* STRING  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 1953 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_STRING: /* STRING  */
+#line 199 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 6159 "bison_parser.cpp"
         break;
 
-    case 5: /* FLOATVAL  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 1959 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
+#line 186 "bison_parser.y"
+            { }
+#line 6165 "bison_parser.cpp"
         break;
 
-    case 6: /* INTVAL  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 1965 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_INTVAL: /* INTVAL  */
+#line 186 "bison_parser.y"
+            { }
+#line 6171 "bison_parser.cpp"
         break;
 
-    case 201: /* statement_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_statement_list: /* statement_list  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
       delete ptr;
@@ -1974,24 +6180,24 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 1978 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6184 "bison_parser.cpp"
         break;
 
-    case 202: /* statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).statement)); }
-#line 1984 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_statement: /* statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).statement)); }
+#line 6190 "bison_parser.cpp"
         break;
 
-    case 203: /* preparable_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).statement)); }
-#line 1990 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_preparable_statement: /* preparable_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).statement)); }
+#line 6196 "bison_parser.cpp"
         break;
 
-    case 204: /* opt_hints  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_hints: /* opt_hints  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -1999,12 +6205,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2003 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6209 "bison_parser.cpp"
         break;
 
-    case 205: /* hint_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_hint_list: /* hint_list  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2012,105 +6218,105 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2016 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6222 "bison_parser.cpp"
         break;
 
-    case 206: /* hint  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2022 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_hint: /* hint  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6228 "bison_parser.cpp"
         break;
 
-    case 207: /* transaction_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).transaction_stmt)); }
-#line 2028 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_transaction_statement: /* transaction_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).transaction_stmt)); }
+#line 6234 "bison_parser.cpp"
         break;
 
-    case 209: /* prepare_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).prep_stmt)); }
-#line 2034 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_prepare_statement: /* prepare_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).prep_stmt)); }
+#line 6240 "bison_parser.cpp"
         break;
 
-    case 210: /* prepare_target_query  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 2040 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
+#line 199 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 6246 "bison_parser.cpp"
         break;
 
-    case 211: /* execute_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).exec_stmt)); }
-#line 2046 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_execute_statement: /* execute_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).exec_stmt)); }
+#line 6252 "bison_parser.cpp"
         break;
 
-    case 212: /* import_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).import_stmt)); }
-#line 2052 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_import_statement: /* import_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).import_stmt)); }
+#line 6258 "bison_parser.cpp"
         break;
 
-    case 213: /* file_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2058 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_file_type: /* file_type  */
+#line 186 "bison_parser.y"
+            { }
+#line 6264 "bison_parser.cpp"
         break;
 
-    case 214: /* file_path  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 2064 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_file_path: /* file_path  */
+#line 199 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 6270 "bison_parser.cpp"
         break;
 
-    case 215: /* opt_import_export_options  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).import_export_option_t)); }
-#line 2070 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).import_export_option_t)); }
+#line 6276 "bison_parser.cpp"
         break;
 
-    case 216: /* import_export_options  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).import_export_option_t)); }
-#line 2076 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_import_export_options: /* import_export_options  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).import_export_option_t)); }
+#line 6282 "bison_parser.cpp"
         break;
 
-    case 217: /* csv_option  */
-#line 203 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_csv_option: /* csv_option  */
+#line 208 "bison_parser.y"
+            {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 2085 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6291 "bison_parser.cpp"
         break;
 
-    case 218: /* export_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).export_stmt)); }
-#line 2091 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_export_statement: /* export_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).export_stmt)); }
+#line 6297 "bison_parser.cpp"
         break;
 
-    case 219: /* show_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).show_stmt)); }
-#line 2097 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_show_statement: /* show_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).show_stmt)); }
+#line 6303 "bison_parser.cpp"
         break;
 
-    case 220: /* create_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).create_stmt)); }
-#line 2103 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_create_statement: /* create_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).create_stmt)); }
+#line 6309 "bison_parser.cpp"
         break;
 
-    case 221: /* opt_not_exists  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2109 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
+#line 186 "bison_parser.y"
+            { }
+#line 6315 "bison_parser.cpp"
         break;
 
-    case 222: /* table_elem_commalist  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
       delete ptr;
@@ -2118,120 +6324,120 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 2122 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6328 "bison_parser.cpp"
         break;
 
-    case 223: /* table_elem  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table_element_t)); }
-#line 2128 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_elem: /* table_elem  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table_element_t)); }
+#line 6334 "bison_parser.cpp"
         break;
 
-    case 224: /* column_def  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).column_t)); }
-#line 2134 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_def: /* column_def  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).column_t)); }
+#line 6340 "bison_parser.cpp"
         break;
 
-    case 225: /* column_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2140 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_type: /* column_type  */
+#line 186 "bison_parser.y"
+            { }
+#line 6346 "bison_parser.cpp"
         break;
 
-    case 226: /* opt_time_precision  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2146 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
+#line 186 "bison_parser.y"
+            { }
+#line 6352 "bison_parser.cpp"
         break;
 
-    case 227: /* opt_decimal_specification  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).ival_pair)); }
-#line 2152 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).ival_pair)); }
+#line 6358 "bison_parser.cpp"
         break;
 
-    case 228: /* opt_column_constraints  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).column_constraints_t)); }
-#line 2158 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).column_constraints_t)); }
+#line 6364 "bison_parser.cpp"
         break;
 
-    case 229: /* column_constraints  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).column_constraints_t)); }
-#line 2164 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_constraints: /* column_constraints  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).column_constraints_t)); }
+#line 6370 "bison_parser.cpp"
         break;
 
-    case 230: /* column_constraint  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2170 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_constraint: /* column_constraint  */
+#line 186 "bison_parser.y"
+            { }
+#line 6376 "bison_parser.cpp"
         break;
 
-    case 231: /* table_constraint  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table_constraint_t)); }
-#line 2176 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_constraint: /* table_constraint  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table_constraint_t)); }
+#line 6382 "bison_parser.cpp"
         break;
 
-    case 232: /* references_spec  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).references_spec_t)); }
-#line 2182 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_references_spec: /* references_spec  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).references_spec_t)); }
+#line 6388 "bison_parser.cpp"
         break;
 
-    case 233: /* drop_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).drop_stmt)); }
-#line 2188 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_drop_statement: /* drop_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).drop_stmt)); }
+#line 6394 "bison_parser.cpp"
         break;
 
-    case 234: /* opt_exists  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2194 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_exists: /* opt_exists  */
+#line 186 "bison_parser.y"
+            { }
+#line 6400 "bison_parser.cpp"
         break;
 
-    case 235: /* alter_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alter_stmt)); }
-#line 2200 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_alter_statement: /* alter_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).alter_stmt)); }
+#line 6406 "bison_parser.cpp"
         break;
 
-    case 236: /* alter_action  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alter_action_t)); }
-#line 2206 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_alter_action: /* alter_action  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).alter_action_t)); }
+#line 6412 "bison_parser.cpp"
         break;
 
-    case 237: /* drop_action  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).drop_action_t)); }
-#line 2212 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_drop_action: /* drop_action  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).drop_action_t)); }
+#line 6418 "bison_parser.cpp"
         break;
 
-    case 238: /* delete_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).delete_stmt)); }
-#line 2218 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_delete_statement: /* delete_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).delete_stmt)); }
+#line 6424 "bison_parser.cpp"
         break;
 
-    case 239: /* truncate_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).delete_stmt)); }
-#line 2224 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_truncate_statement: /* truncate_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).delete_stmt)); }
+#line 6430 "bison_parser.cpp"
         break;
 
-    case 240: /* insert_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).insert_stmt)); }
-#line 2230 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_insert_statement: /* insert_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).insert_stmt)); }
+#line 6436 "bison_parser.cpp"
         break;
 
-    case 241: /* opt_column_list  */
-#line 186 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_column_list: /* opt_column_list  */
+#line 191 "bison_parser.y"
+            {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
       free(ptr);
@@ -2239,18 +6445,18 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 2243 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6449 "bison_parser.cpp"
         break;
 
-    case 242: /* update_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).update_stmt)); }
-#line 2249 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_update_statement: /* update_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).update_stmt)); }
+#line 6455 "bison_parser.cpp"
         break;
 
-    case 243: /* update_clause_commalist  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).update_vec)) {
     for (auto ptr : *(((*yyvaluep).update_vec))) {
       delete ptr;
@@ -2258,78 +6464,78 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 2262 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6468 "bison_parser.cpp"
         break;
 
-    case 244: /* update_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).update_t)); }
-#line 2268 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_update_clause: /* update_clause  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).update_t)); }
+#line 6474 "bison_parser.cpp"
         break;
 
-    case 245: /* select_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2274 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_statement: /* select_statement  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 6480 "bison_parser.cpp"
         break;
 
-    case 246: /* select_within_set_operation  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2280 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 6486 "bison_parser.cpp"
         break;
 
-    case 247: /* select_within_set_operation_no_parentheses  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2286 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 6492 "bison_parser.cpp"
         break;
 
-    case 248: /* select_with_paren  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2292 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_with_paren: /* select_with_paren  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 6498 "bison_parser.cpp"
         break;
 
-    case 249: /* select_no_paren  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2298 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_no_paren: /* select_no_paren  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 6504 "bison_parser.cpp"
         break;
 
-    case 250: /* set_operator  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).set_operator_t)); }
-#line 2304 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_set_operator: /* set_operator  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).set_operator_t)); }
+#line 6510 "bison_parser.cpp"
         break;
 
-    case 251: /* set_type  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).set_operator_t)); }
-#line 2310 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_set_type: /* set_type  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).set_operator_t)); }
+#line 6516 "bison_parser.cpp"
         break;
 
-    case 252: /* opt_all  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2316 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_all: /* opt_all  */
+#line 186 "bison_parser.y"
+            { }
+#line 6522 "bison_parser.cpp"
         break;
 
-    case 253: /* select_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2322 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_clause: /* select_clause  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 6528 "bison_parser.cpp"
         break;
 
-    case 254: /* opt_distinct  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2328 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_distinct: /* opt_distinct  */
+#line 186 "bison_parser.y"
+            { }
+#line 6534 "bison_parser.cpp"
         break;
 
-    case 255: /* select_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_select_list: /* select_list  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2337,42 +6543,42 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2341 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6547 "bison_parser.cpp"
         break;
 
-    case 256: /* opt_from_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2347 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 6553 "bison_parser.cpp"
         break;
 
-    case 257: /* from_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2353 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_from_clause: /* from_clause  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 6559 "bison_parser.cpp"
         break;
 
-    case 258: /* opt_where  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2359 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_where: /* opt_where  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6565 "bison_parser.cpp"
         break;
 
-    case 259: /* opt_group  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).group_t)); }
-#line 2365 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_group: /* opt_group  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).group_t)); }
+#line 6571 "bison_parser.cpp"
         break;
 
-    case 260: /* opt_having  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2371 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_having: /* opt_having  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6577 "bison_parser.cpp"
         break;
 
-    case 261: /* opt_order  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_order: /* opt_order  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
       delete ptr;
@@ -2380,12 +6586,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2384 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6590 "bison_parser.cpp"
         break;
 
-    case 262: /* order_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_order_list: /* order_list  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
       delete ptr;
@@ -2393,42 +6599,42 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2397 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6603 "bison_parser.cpp"
         break;
 
-    case 263: /* order_desc  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).order)); }
-#line 2403 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_order_desc: /* order_desc  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).order)); }
+#line 6609 "bison_parser.cpp"
         break;
 
-    case 264: /* opt_order_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2409 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_order_type: /* opt_order_type  */
+#line 186 "bison_parser.y"
+            { }
+#line 6615 "bison_parser.cpp"
         break;
 
-    case 265: /* opt_null_ordering  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2415 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
+#line 186 "bison_parser.y"
+            { }
+#line 6621 "bison_parser.cpp"
         break;
 
-    case 266: /* opt_top  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).limit)); }
-#line 2421 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_top: /* opt_top  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).limit)); }
+#line 6627 "bison_parser.cpp"
         break;
 
-    case 267: /* opt_limit  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).limit)); }
-#line 2427 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_limit: /* opt_limit  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).limit)); }
+#line 6633 "bison_parser.cpp"
         break;
 
-    case 268: /* expr_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_expr_list: /* expr_list  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2436,12 +6642,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2440 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6646 "bison_parser.cpp"
         break;
 
-    case 269: /* opt_extended_literal_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2449,12 +6655,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2453 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6659 "bison_parser.cpp"
         break;
 
-    case 270: /* extended_literal_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2462,108 +6668,108 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2466 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6672 "bison_parser.cpp"
         break;
 
-    case 271: /* casted_extended_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2472 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6678 "bison_parser.cpp"
         break;
 
-    case 272: /* extended_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2478 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_extended_literal: /* extended_literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6684 "bison_parser.cpp"
         break;
 
-    case 273: /* expr_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2484 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_expr_alias: /* expr_alias  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6690 "bison_parser.cpp"
         break;
 
-    case 274: /* expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2490 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_expr: /* expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6696 "bison_parser.cpp"
         break;
 
-    case 275: /* operand  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2496 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_operand: /* operand  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6702 "bison_parser.cpp"
         break;
 
-    case 276: /* scalar_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2502 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_scalar_expr: /* scalar_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6708 "bison_parser.cpp"
         break;
 
-    case 277: /* unary_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2508 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6714 "bison_parser.cpp"
         break;
 
-    case 278: /* binary_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2514 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_binary_expr: /* binary_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6720 "bison_parser.cpp"
         break;
 
-    case 279: /* logic_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2520 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_logic_expr: /* logic_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6726 "bison_parser.cpp"
         break;
 
-    case 280: /* in_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2526 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_in_expr: /* in_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6732 "bison_parser.cpp"
         break;
 
-    case 281: /* case_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2532 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_case_expr: /* case_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6738 "bison_parser.cpp"
         break;
 
-    case 282: /* case_list  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2538 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_case_list: /* case_list  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6744 "bison_parser.cpp"
         break;
 
-    case 283: /* exists_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2544 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_exists_expr: /* exists_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6750 "bison_parser.cpp"
         break;
 
-    case 284: /* comp_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2550 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_comp_expr: /* comp_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6756 "bison_parser.cpp"
         break;
 
-    case 285: /* function_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2556 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_function_expr: /* function_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6762 "bison_parser.cpp"
         break;
 
-    case 286: /* opt_window  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).window_description)); }
-#line 2562 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_window: /* opt_window  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).window_description)); }
+#line 6768 "bison_parser.cpp"
         break;
 
-    case 287: /* opt_partition  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_partition: /* opt_partition  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2571,156 +6777,156 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2575 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6781 "bison_parser.cpp"
         break;
 
-    case 288: /* opt_frame_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).frame_description)); }
-#line 2581 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).frame_description)); }
+#line 6787 "bison_parser.cpp"
         break;
 
-    case 289: /* frame_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2587 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_frame_type: /* frame_type  */
+#line 186 "bison_parser.y"
+            { }
+#line 6793 "bison_parser.cpp"
         break;
 
-    case 290: /* frame_bound  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).frame_bound)); }
-#line 2593 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_frame_bound: /* frame_bound  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).frame_bound)); }
+#line 6799 "bison_parser.cpp"
         break;
 
-    case 291: /* extract_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2599 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_extract_expr: /* extract_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6805 "bison_parser.cpp"
         break;
 
-    case 292: /* cast_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2605 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_cast_expr: /* cast_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6811 "bison_parser.cpp"
         break;
 
-    case 293: /* datetime_field  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2611 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_datetime_field: /* datetime_field  */
+#line 186 "bison_parser.y"
+            { }
+#line 6817 "bison_parser.cpp"
         break;
 
-    case 294: /* datetime_field_plural  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2617 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
+#line 186 "bison_parser.y"
+            { }
+#line 6823 "bison_parser.cpp"
         break;
 
-    case 295: /* duration_field  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2623 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_duration_field: /* duration_field  */
+#line 186 "bison_parser.y"
+            { }
+#line 6829 "bison_parser.cpp"
         break;
 
-    case 296: /* array_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2629 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_array_expr: /* array_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6835 "bison_parser.cpp"
         break;
 
-    case 297: /* array_index  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2635 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_array_index: /* array_index  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6841 "bison_parser.cpp"
         break;
 
-    case 298: /* between_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2641 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_between_expr: /* between_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6847 "bison_parser.cpp"
         break;
 
-    case 299: /* column_name  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2647 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_name: /* column_name  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6853 "bison_parser.cpp"
         break;
 
-    case 300: /* literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2653 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_literal: /* literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6859 "bison_parser.cpp"
         break;
 
-    case 301: /* string_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2659 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_string_literal: /* string_literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6865 "bison_parser.cpp"
         break;
 
-    case 302: /* bool_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2665 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_bool_literal: /* bool_literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6871 "bison_parser.cpp"
         break;
 
-    case 303: /* num_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2671 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_num_literal: /* num_literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6877 "bison_parser.cpp"
         break;
 
-    case 304: /* int_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2677 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_int_literal: /* int_literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6883 "bison_parser.cpp"
         break;
 
-    case 305: /* null_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2683 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_null_literal: /* null_literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6889 "bison_parser.cpp"
         break;
 
-    case 306: /* date_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2689 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_date_literal: /* date_literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6895 "bison_parser.cpp"
         break;
 
-    case 307: /* interval_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2695 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_interval_literal: /* interval_literal  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6901 "bison_parser.cpp"
         break;
 
-    case 308: /* param_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2701 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_param_expr: /* param_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6907 "bison_parser.cpp"
         break;
 
-    case 309: /* table_ref  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2707 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref: /* table_ref  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 6913 "bison_parser.cpp"
         break;
 
-    case 310: /* table_ref_atomic  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2713 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 6919 "bison_parser.cpp"
         break;
 
-    case 311: /* nonjoin_table_ref_atomic  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2719 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 6925 "bison_parser.cpp"
         break;
 
-    case 312: /* table_ref_commalist  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
+#line 200 "bison_parser.y"
+            {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
       delete ptr;
@@ -2728,135 +6934,170 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 2732 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6938 "bison_parser.cpp"
         break;
 
-    case 313: /* table_ref_name  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2738 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref_name: /* table_ref_name  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 6944 "bison_parser.cpp"
         break;
 
-    case 314: /* table_ref_name_no_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2744 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 6950 "bison_parser.cpp"
         break;
 
-    case 315: /* table_name  */
-#line 182 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_table_name: /* table_name  */
+#line 187 "bison_parser.y"
+            {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 2753 "bison_parser.cpp" /* yacc.c:1257  */
+#line 6959 "bison_parser.cpp"
         break;
 
-    case 316: /* opt_index_name  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 2759 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_index_name: /* opt_index_name  */
+#line 199 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 6965 "bison_parser.cpp"
         break;
 
-    case 317: /* table_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2765 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_alias: /* table_alias  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 6971 "bison_parser.cpp"
         break;
 
-    case 318: /* opt_table_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2771 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 6977 "bison_parser.cpp"
         break;
 
-    case 319: /* alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2777 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_alias: /* alias  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 6983 "bison_parser.cpp"
         break;
 
-    case 320: /* opt_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2783 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_alias: /* opt_alias  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 6989 "bison_parser.cpp"
         break;
 
-    case 321: /* opt_locking_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2789 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
+#line 200 "bison_parser.y"
+            {
+  if (((*yyvaluep).locking_clause_vec)) {
+    for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).locking_clause_vec));
+}
+#line 7002 "bison_parser.cpp"
         break;
 
-    case 322: /* opt_locking_clause_list  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2795 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
+#line 200 "bison_parser.y"
+            {
+  if (((*yyvaluep).locking_clause_vec)) {
+    for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).locking_clause_vec));
+}
+#line 7015 "bison_parser.cpp"
         break;
 
-    case 323: /* locking_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).locking_t)); }
-#line 2801 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_locking_clause: /* locking_clause  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).locking_t)); }
+#line 7021 "bison_parser.cpp"
         break;
 
-    case 324: /* row_lock_mode  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2807 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
+#line 186 "bison_parser.y"
+            { }
+#line 7027 "bison_parser.cpp"
         break;
 
-    case 325: /* opt_row_lock_policy  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2813 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
+#line 186 "bison_parser.y"
+            { }
+#line 7033 "bison_parser.cpp"
         break;
 
-    case 326: /* opt_with_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_vec)); }
-#line 2819 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
+#line 200 "bison_parser.y"
+            {
+  if (((*yyvaluep).with_description_vec)) {
+    for (auto ptr : *(((*yyvaluep).with_description_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).with_description_vec));
+}
+#line 7046 "bison_parser.cpp"
         break;
 
-    case 327: /* with_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_vec)); }
-#line 2825 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_with_clause: /* with_clause  */
+#line 200 "bison_parser.y"
+            {
+  if (((*yyvaluep).with_description_vec)) {
+    for (auto ptr : *(((*yyvaluep).with_description_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).with_description_vec));
+}
+#line 7059 "bison_parser.cpp"
         break;
 
-    case 328: /* with_description_list  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_vec)); }
-#line 2831 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_with_description_list: /* with_description_list  */
+#line 200 "bison_parser.y"
+            {
+  if (((*yyvaluep).with_description_vec)) {
+    for (auto ptr : *(((*yyvaluep).with_description_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).with_description_vec));
+}
+#line 7072 "bison_parser.cpp"
         break;
 
-    case 329: /* with_description  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_t)); }
-#line 2837 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_with_description: /* with_description  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).with_description_t)); }
+#line 7078 "bison_parser.cpp"
         break;
 
-    case 330: /* join_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2843 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_join_clause: /* join_clause  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 7084 "bison_parser.cpp"
         break;
 
-    case 331: /* opt_join_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2849 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_join_type: /* opt_join_type  */
+#line 186 "bison_parser.y"
+            { }
+#line 7090 "bison_parser.cpp"
         break;
 
-    case 332: /* join_condition  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2855 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_join_condition: /* join_condition  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 7096 "bison_parser.cpp"
         break;
 
-    case 334: /* ident_commalist  */
-#line 186 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_ident_commalist: /* ident_commalist  */
+#line 191 "bison_parser.y"
+            {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
       free(ptr);
@@ -2864,10 +7105,9 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 2868 "bison_parser.cpp" /* yacc.c:1257  */
+#line 7109 "bison_parser.cpp"
         break;
 
-
       default:
         break;
     }
@@ -2877,6 +7117,8 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
 
 
 
+
+
 /*----------.
 | yyparse.  |
 `----------*/
@@ -2884,7 +7126,7 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
 int
 yyparse (hsql::SQLParserResult* result, yyscan_t scanner)
 {
-/* The lookahead symbol.  */
+/* Lookahead token kind.  */
 int yychar;
 
 
@@ -2903,55 +7145,50 @@ static YYLTYPE yyloc_default
 YYLTYPE yylloc = yyloc_default;
 
     /* Number of syntax errors so far.  */
-    int yynerrs;
+    int yynerrs = 0;
 
-    int yystate;
+    yy_state_fast_t yystate = 0;
     /* Number of tokens to shift before error messages enabled.  */
-    int yyerrstatus;
+    int yyerrstatus = 0;
 
-    /* The stacks and their tools:
-       'yyss': related to states.
-       'yyvs': related to semantic values.
-       'yyls': related to locations.
-
-       Refer to the stacks through separate pointers, to allow yyoverflow
+    /* Refer to the stacks through separate pointers, to allow yyoverflow
        to reallocate them elsewhere.  */
 
-    /* The state stack.  */
-    yytype_int16 yyssa[YYINITDEPTH];
-    yytype_int16 *yyss;
-    yytype_int16 *yyssp;
+    /* Their size.  */
+    YYPTRDIFF_T yystacksize = YYINITDEPTH;
+
+    /* The state stack: array, bottom, top.  */
+    yy_state_t yyssa[YYINITDEPTH];
+    yy_state_t *yyss = yyssa;
+    yy_state_t *yyssp = yyss;
 
-    /* The semantic value stack.  */
+    /* The semantic value stack: array, bottom, top.  */
     YYSTYPE yyvsa[YYINITDEPTH];
-    YYSTYPE *yyvs;
-    YYSTYPE *yyvsp;
+    YYSTYPE *yyvs = yyvsa;
+    YYSTYPE *yyvsp = yyvs;
 
-    /* The location stack.  */
+    /* The location stack: array, bottom, top.  */
     YYLTYPE yylsa[YYINITDEPTH];
-    YYLTYPE *yyls;
-    YYLTYPE *yylsp;
-
-    /* The locations where the error started and ended.  */
-    YYLTYPE yyerror_range[3];
-
-    YYSIZE_T yystacksize;
+    YYLTYPE *yyls = yylsa;
+    YYLTYPE *yylsp = yyls;
 
   int yyn;
+  /* The return value of yyparse.  */
   int yyresult;
-  /* Lookahead token as an internal (translated) token number.  */
-  int yytoken = 0;
+  /* Lookahead symbol kind.  */
+  yysymbol_kind_t yytoken = YYSYMBOL_YYEMPTY;
   /* The variables used to return semantic value and location from the
      action routines.  */
   YYSTYPE yyval;
   YYLTYPE yyloc;
 
-#if YYERROR_VERBOSE
+  /* The locations where the error started and ended.  */
+  YYLTYPE yyerror_range[3];
+
   /* Buffer for error messages, and its allocated size.  */
   char yymsgbuf[128];
   char *yymsg = yymsgbuf;
-  YYSIZE_T yymsg_alloc = sizeof yymsgbuf;
-#endif
+  YYPTRDIFF_T yymsg_alloc = sizeof yymsgbuf;
 
 #define YYPOPSTACK(N)   (yyvsp -= (N), yyssp -= (N), yylsp -= (N))
 
@@ -2959,20 +7196,13 @@ YYLTYPE yylloc = yyloc_default;
      Keep to zero when no symbol should be popped.  */
   int yylen = 0;
 
-  yyssp = yyss = yyssa;
-  yyvsp = yyvs = yyvsa;
-  yylsp = yyls = yylsa;
-  yystacksize = YYINITDEPTH;
-
   YYDPRINTF ((stderr, "Starting parse\n"));
 
-  yystate = 0;
-  yyerrstatus = 0;
-  yynerrs = 0;
-  yychar = YYEMPTY; /* Cause a token to be read.  */
+  yychar = SQL_HSQL_EMPTY; /* Cause a token to be read.  */
+
 
 /* User initialization code.  */
-#line 81 "bison_parser.y" /* yacc.c:1429  */
+#line 86 "bison_parser.y"
 {
   // Initialize
   yylloc.first_column = 0;
@@ -2983,33 +7213,47 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.string_length = 0;
 }
 
-#line 2987 "bison_parser.cpp" /* yacc.c:1429  */
+#line 7217 "bison_parser.cpp"
+
   yylsp[0] = yylloc;
   goto yysetstate;
 
+
 /*------------------------------------------------------------.
-| yynewstate -- Push a new state, which is found in yystate.  |
+| yynewstate -- push a new state, which is found in yystate.  |
 `------------------------------------------------------------*/
- yynewstate:
+yynewstate:
   /* In all cases, when you get here, the value and location stacks
      have just been pushed.  So pushing a state here evens the stacks.  */
   yyssp++;
 
- yysetstate:
-  *yyssp = yystate;
+
+/*--------------------------------------------------------------------.
+| yysetstate -- set current state (the top of the stack) to yystate.  |
+`--------------------------------------------------------------------*/
+yysetstate:
+  YYDPRINTF ((stderr, "Entering state %d\n", yystate));
+  YY_ASSERT (0 <= yystate && yystate < YYNSTATES);
+  YY_IGNORE_USELESS_CAST_BEGIN
+  *yyssp = YY_CAST (yy_state_t, yystate);
+  YY_IGNORE_USELESS_CAST_END
+  YY_STACK_PRINT (yyss, yyssp);
 
   if (yyss + yystacksize - 1 <= yyssp)
+#if !defined yyoverflow && !defined YYSTACK_RELOCATE
+    YYNOMEM;
+#else
     {
       /* Get the current used size of the three stacks, in elements.  */
-      YYSIZE_T yysize = yyssp - yyss + 1;
+      YYPTRDIFF_T yysize = yyssp - yyss + 1;
 
-#ifdef yyoverflow
+# if defined yyoverflow
       {
         /* Give user a chance to reallocate the stack.  Use copies of
            these so that the &'s don't force the real ones into
            memory.  */
+        yy_state_t *yyss1 = yyss;
         YYSTYPE *yyvs1 = yyvs;
-        yytype_int16 *yyss1 = yyss;
         YYLTYPE *yyls1 = yyls;
 
         /* Each stack pointer address is followed by the size of the
@@ -3017,32 +7261,29 @@ YYLTYPE yylloc = yyloc_default;
            conditional around just the two extra args, but that might
            be undefined if yyoverflow is a macro.  */
         yyoverflow (YY_("memory exhausted"),
-                    &yyss1, yysize * sizeof (*yyssp),
-                    &yyvs1, yysize * sizeof (*yyvsp),
-                    &yyls1, yysize * sizeof (*yylsp),
+                    &yyss1, yysize * YYSIZEOF (*yyssp),
+                    &yyvs1, yysize * YYSIZEOF (*yyvsp),
+                    &yyls1, yysize * YYSIZEOF (*yylsp),
                     &yystacksize);
-
-        yyls = yyls1;
         yyss = yyss1;
         yyvs = yyvs1;
+        yyls = yyls1;
       }
-#else /* no yyoverflow */
-# ifndef YYSTACK_RELOCATE
-      goto yyexhaustedlab;
-# else
+# else /* defined YYSTACK_RELOCATE */
       /* Extend the stack our own way.  */
       if (YYMAXDEPTH <= yystacksize)
-        goto yyexhaustedlab;
+        YYNOMEM;
       yystacksize *= 2;
       if (YYMAXDEPTH < yystacksize)
         yystacksize = YYMAXDEPTH;
 
       {
-        yytype_int16 *yyss1 = yyss;
+        yy_state_t *yyss1 = yyss;
         union yyalloc *yyptr =
-          (union yyalloc *) YYSTACK_ALLOC (YYSTACK_BYTES (yystacksize));
+          YY_CAST (union yyalloc *,
+                   YYSTACK_ALLOC (YY_CAST (YYSIZE_T, YYSTACK_BYTES (yystacksize))));
         if (! yyptr)
-          goto yyexhaustedlab;
+          YYNOMEM;
         YYSTACK_RELOCATE (yyss_alloc, yyss);
         YYSTACK_RELOCATE (yyvs_alloc, yyvs);
         YYSTACK_RELOCATE (yyls_alloc, yyls);
@@ -3051,31 +7292,32 @@ YYLTYPE yylloc = yyloc_default;
           YYSTACK_FREE (yyss1);
       }
 # endif
-#endif /* no yyoverflow */
 
       yyssp = yyss + yysize - 1;
       yyvsp = yyvs + yysize - 1;
       yylsp = yyls + yysize - 1;
 
-      YYDPRINTF ((stderr, "Stack size increased to %lu\n",
-                  (unsigned long int) yystacksize));
+      YY_IGNORE_USELESS_CAST_BEGIN
+      YYDPRINTF ((stderr, "Stack size increased to %ld\n",
+                  YY_CAST (long, yystacksize)));
+      YY_IGNORE_USELESS_CAST_END
 
       if (yyss + yystacksize - 1 <= yyssp)
         YYABORT;
     }
+#endif /* !defined yyoverflow && !defined YYSTACK_RELOCATE */
 
-  YYDPRINTF ((stderr, "Entering state %d\n", yystate));
 
   if (yystate == YYFINAL)
     YYACCEPT;
 
   goto yybackup;
 
+
 /*-----------.
 | yybackup.  |
 `-----------*/
 yybackup:
-
   /* Do appropriate processing given the current state.  Read a
      lookahead token if we need one and don't already have one.  */
 
@@ -3086,18 +7328,30 @@ yybackup:
 
   /* Not known => get a lookahead token if don't already have one.  */
 
-  /* YYCHAR is either YYEMPTY or YYEOF or a valid lookahead symbol.  */
-  if (yychar == YYEMPTY)
+  /* YYCHAR is either empty, or end-of-input, or a valid lookahead.  */
+  if (yychar == SQL_HSQL_EMPTY)
     {
-      YYDPRINTF ((stderr, "Reading a token: "));
+      YYDPRINTF ((stderr, "Reading a token\n"));
       yychar = yylex (&yylval, &yylloc, scanner);
     }
 
-  if (yychar <= YYEOF)
+  if (yychar <= SQL_YYEOF)
     {
-      yychar = yytoken = YYEOF;
+      yychar = SQL_YYEOF;
+      yytoken = YYSYMBOL_YYEOF;
       YYDPRINTF ((stderr, "Now at end of input.\n"));
     }
+  else if (yychar == SQL_HSQL_error)
+    {
+      /* The scanner already issued an error message, process directly
+         to error recovery.  But do not keep the error token as
+         lookahead, it is too special and may lead us to an endless
+         loop in error recovery. */
+      yychar = SQL_HSQL_UNDEF;
+      yytoken = YYSYMBOL_YYerror;
+      yyerror_range[1] = yylloc;
+      goto yyerrlab1;
+    }
   else
     {
       yytoken = YYTRANSLATE (yychar);
@@ -3125,15 +7379,14 @@ yybackup:
 
   /* Shift the lookahead token.  */
   YY_SYMBOL_PRINT ("Shifting", yytoken, &yylval, &yylloc);
-
-  /* Discard the shifted token.  */
-  yychar = YYEMPTY;
-
   yystate = yyn;
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
   *++yyvsp = yylval;
   YY_IGNORE_MAYBE_UNINITIALIZED_END
   *++yylsp = yylloc;
+
+  /* Discard the shifted token.  */
+  yychar = SQL_HSQL_EMPTY;
   goto yynewstate;
 
 
@@ -3148,7 +7401,7 @@ yydefault:
 
 
 /*-----------------------------.
-| yyreduce -- Do a reduction.  |
+| yyreduce -- do a reduction.  |
 `-----------------------------*/
 yyreduce:
   /* yyn is the number of a rule to reduce with.  */
@@ -3164,14 +7417,15 @@ yyreduce:
      GCC warning that YYVAL may be used uninitialized.  */
   yyval = yyvsp[1-yylen];
 
-  /* Default location.  */
+  /* Default location. */
   YYLLOC_DEFAULT (yyloc, (yylsp - yylen), yylen);
+  yyerror_range[1] = yyloc;
   YY_REDUCE_PRINT (yyn);
   switch (yyn)
     {
-        case 2:
-#line 343 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 2: /* input: statement_list opt_semicolon  */
+#line 351 "bison_parser.y"
+                                     {
   for (SQLStatement* stmt : *(yyvsp[-1].stmt_vec)) {
     // Transfers ownership of the statement.
     result->addStatement(stmt);
@@ -3188,237 +7442,237 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 3192 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7446 "bison_parser.cpp"
     break;
 
-  case 3:
-#line 362 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 3: /* statement_list: statement  */
+#line 370 "bison_parser.y"
+                           {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 3203 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7457 "bison_parser.cpp"
     break;
 
-  case 4:
-#line 368 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 4: /* statement_list: statement_list ';' statement  */
+#line 376 "bison_parser.y"
+                               {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 3214 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7468 "bison_parser.cpp"
     break;
 
-  case 5:
-#line 375 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 5: /* statement: prepare_statement opt_hints  */
+#line 383 "bison_parser.y"
+                                        {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3223 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7477 "bison_parser.cpp"
     break;
 
-  case 6:
-#line 379 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 6: /* statement: preparable_statement opt_hints  */
+#line 387 "bison_parser.y"
+                                 {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3232 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7486 "bison_parser.cpp"
     break;
 
-  case 7:
-#line 383 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 3238 "bison_parser.cpp" /* yacc.c:1646  */
+  case 7: /* statement: show_statement  */
+#line 391 "bison_parser.y"
+                 { (yyval.statement) = (yyvsp[0].show_stmt); }
+#line 7492 "bison_parser.cpp"
     break;
 
-  case 8:
-#line 384 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 3244 "bison_parser.cpp" /* yacc.c:1646  */
+  case 8: /* statement: import_statement  */
+#line 392 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].import_stmt); }
+#line 7498 "bison_parser.cpp"
     break;
 
-  case 9:
-#line 385 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 3250 "bison_parser.cpp" /* yacc.c:1646  */
+  case 9: /* statement: export_statement  */
+#line 393 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].export_stmt); }
+#line 7504 "bison_parser.cpp"
     break;
 
-  case 10:
-#line 387 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 3256 "bison_parser.cpp" /* yacc.c:1646  */
+  case 10: /* preparable_statement: select_statement  */
+#line 395 "bison_parser.y"
+                                        { (yyval.statement) = (yyvsp[0].select_stmt); }
+#line 7510 "bison_parser.cpp"
     break;
 
-  case 11:
-#line 388 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 3262 "bison_parser.cpp" /* yacc.c:1646  */
+  case 11: /* preparable_statement: create_statement  */
+#line 396 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].create_stmt); }
+#line 7516 "bison_parser.cpp"
     break;
 
-  case 12:
-#line 389 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 3268 "bison_parser.cpp" /* yacc.c:1646  */
+  case 12: /* preparable_statement: insert_statement  */
+#line 397 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].insert_stmt); }
+#line 7522 "bison_parser.cpp"
     break;
 
-  case 13:
-#line 390 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3274 "bison_parser.cpp" /* yacc.c:1646  */
+  case 13: /* preparable_statement: delete_statement  */
+#line 398 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].delete_stmt); }
+#line 7528 "bison_parser.cpp"
     break;
 
-  case 14:
-#line 391 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3280 "bison_parser.cpp" /* yacc.c:1646  */
+  case 14: /* preparable_statement: truncate_statement  */
+#line 399 "bison_parser.y"
+                     { (yyval.statement) = (yyvsp[0].delete_stmt); }
+#line 7534 "bison_parser.cpp"
     break;
 
-  case 15:
-#line 392 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 3286 "bison_parser.cpp" /* yacc.c:1646  */
+  case 15: /* preparable_statement: update_statement  */
+#line 400 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].update_stmt); }
+#line 7540 "bison_parser.cpp"
     break;
 
-  case 16:
-#line 393 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 3292 "bison_parser.cpp" /* yacc.c:1646  */
+  case 16: /* preparable_statement: drop_statement  */
+#line 401 "bison_parser.y"
+                 { (yyval.statement) = (yyvsp[0].drop_stmt); }
+#line 7546 "bison_parser.cpp"
     break;
 
-  case 17:
-#line 394 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 3298 "bison_parser.cpp" /* yacc.c:1646  */
+  case 17: /* preparable_statement: alter_statement  */
+#line 402 "bison_parser.y"
+                  { (yyval.statement) = (yyvsp[0].alter_stmt); }
+#line 7552 "bison_parser.cpp"
     break;
 
-  case 18:
-#line 395 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 3304 "bison_parser.cpp" /* yacc.c:1646  */
+  case 18: /* preparable_statement: execute_statement  */
+#line 403 "bison_parser.y"
+                    { (yyval.statement) = (yyvsp[0].exec_stmt); }
+#line 7558 "bison_parser.cpp"
     break;
 
-  case 19:
-#line 396 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 3310 "bison_parser.cpp" /* yacc.c:1646  */
+  case 19: /* preparable_statement: transaction_statement  */
+#line 404 "bison_parser.y"
+                        { (yyval.statement) = (yyvsp[0].transaction_stmt); }
+#line 7564 "bison_parser.cpp"
     break;
 
-  case 20:
-#line 402 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 3316 "bison_parser.cpp" /* yacc.c:1646  */
+  case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
+#line 410 "bison_parser.y"
+                                        { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
+#line 7570 "bison_parser.cpp"
     break;
 
-  case 21:
-#line 403 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = nullptr; }
-#line 3322 "bison_parser.cpp" /* yacc.c:1646  */
+  case 21: /* opt_hints: %empty  */
+#line 411 "bison_parser.y"
+              { (yyval.expr_vec) = nullptr; }
+#line 7576 "bison_parser.cpp"
     break;
 
-  case 22:
-#line 405 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 22: /* hint_list: hint  */
+#line 413 "bison_parser.y"
+                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 3331 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7585 "bison_parser.cpp"
     break;
 
-  case 23:
-#line 409 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 23: /* hint_list: hint_list ',' hint  */
+#line 417 "bison_parser.y"
+                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 3340 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7594 "bison_parser.cpp"
     break;
 
-  case 24:
-#line 414 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 24: /* hint: IDENTIFIER  */
+#line 422 "bison_parser.y"
+                  {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 3349 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7603 "bison_parser.cpp"
     break;
 
-  case 25:
-#line 418 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
+#line 426 "bison_parser.y"
+                                           {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 3359 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7613 "bison_parser.cpp"
     break;
 
-  case 26:
-#line 428 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 3365 "bison_parser.cpp" /* yacc.c:1646  */
+  case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
+#line 436 "bison_parser.y"
+                                                      { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
+#line 7619 "bison_parser.cpp"
     break;
 
-  case 27:
-#line 429 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 3371 "bison_parser.cpp" /* yacc.c:1646  */
+  case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
+#line 437 "bison_parser.y"
+                                   { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
+#line 7625 "bison_parser.cpp"
     break;
 
-  case 28:
-#line 430 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 3377 "bison_parser.cpp" /* yacc.c:1646  */
+  case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
+#line 438 "bison_parser.y"
+                                 { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
+#line 7631 "bison_parser.cpp"
     break;
 
-  case 31:
-#line 438 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
+#line 446 "bison_parser.y"
+                                                                 {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 3387 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7641 "bison_parser.cpp"
     break;
 
-  case 33:
-#line 446 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 33: /* execute_statement: EXECUTE IDENTIFIER  */
+#line 454 "bison_parser.y"
+                                       {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 3396 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7650 "bison_parser.cpp"
     break;
 
-  case 34:
-#line 450 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
+#line 458 "bison_parser.y"
+                                                       {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 3406 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7660 "bison_parser.cpp"
     break;
 
-  case 35:
-#line 462 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
+#line 470 "bison_parser.y"
+                                                                        {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 3417 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7671 "bison_parser.cpp"
     break;
 
-  case 36:
-#line 468 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
+#line 476 "bison_parser.y"
+                                                                     {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[-4].table_name).schema;
@@ -3434,12 +7688,12 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 3438 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7692 "bison_parser.cpp"
     break;
 
-  case 37:
-#line 485 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 37: /* file_type: IDENTIFIER  */
+#line 493 "bison_parser.y"
+                       {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
   } else if (strcasecmp((yyvsp[0].sval), "tbl") == 0) {
@@ -3453,36 +7707,36 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 3457 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7711 "bison_parser.cpp"
     break;
 
-  case 38:
-#line 500 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.sval) = (yyvsp[0].sval); }
-#line 3463 "bison_parser.cpp" /* yacc.c:1646  */
+  case 38: /* file_path: STRING  */
+#line 508 "bison_parser.y"
+                   { (yyval.sval) = (yyvsp[0].sval); }
+#line 7717 "bison_parser.cpp"
     break;
 
-  case 39:
-#line 502 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3469 "bison_parser.cpp" /* yacc.c:1646  */
+  case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
+#line 510 "bison_parser.y"
+                                                               { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
+#line 7723 "bison_parser.cpp"
     break;
 
-  case 40:
-#line 503 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3475 "bison_parser.cpp" /* yacc.c:1646  */
+  case 40: /* opt_import_export_options: '(' import_export_options ')'  */
+#line 511 "bison_parser.y"
+                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
+#line 7729 "bison_parser.cpp"
     break;
 
-  case 41:
-#line 504 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 3481 "bison_parser.cpp" /* yacc.c:1646  */
+  case 41: /* opt_import_export_options: %empty  */
+#line 512 "bison_parser.y"
+              { (yyval.import_export_option_t) = new ImportExportOptions{}; }
+#line 7735 "bison_parser.cpp"
     break;
 
-  case 42:
-#line 506 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
+#line 514 "bison_parser.y"
+                                                                   {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
     yyerror(&yyloc, result, scanner, "File type must only be provided once.");
@@ -3496,21 +7750,21 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3500 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7754 "bison_parser.cpp"
     break;
 
-  case 43:
-#line 520 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 43: /* import_export_options: FORMAT file_type  */
+#line 528 "bison_parser.y"
+                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 3509 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7763 "bison_parser.cpp"
     break;
 
-  case 44:
-#line 524 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
+#line 532 "bison_parser.y"
+                                            {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
     free((yyvsp[0].sval));
@@ -3520,21 +7774,21 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3524 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7778 "bison_parser.cpp"
     break;
 
-  case 45:
-#line 534 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 45: /* import_export_options: ENCODING STRING  */
+#line 542 "bison_parser.y"
+                  {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 3533 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7787 "bison_parser.cpp"
     break;
 
-  case 46:
-#line 538 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 46: /* import_export_options: import_export_options ',' csv_option  */
+#line 546 "bison_parser.y"
+                                       {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
     free((yyvsp[0].csv_option_t)->second);
@@ -3558,24 +7812,24 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 3562 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7816 "bison_parser.cpp"
     break;
 
-  case 47:
-#line 562 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 47: /* import_export_options: csv_option  */
+#line 570 "bison_parser.y"
+             {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
   (yyval.import_export_option_t)->csv_options->accept_csv_option((yyvsp[0].csv_option_t));
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 3574 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7828 "bison_parser.cpp"
     break;
 
-  case 48:
-#line 570 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 48: /* csv_option: IDENTIFIER STRING  */
+#line 578 "bison_parser.y"
+                               {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
   } else if (strcasecmp((yyvsp[-1].sval), "QUOTE") == 0) {
@@ -3588,18 +7842,18 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 3592 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7846 "bison_parser.cpp"
     break;
 
-  case 49:
-#line 583 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 3598 "bison_parser.cpp" /* yacc.c:1646  */
+  case 49: /* csv_option: NULL STRING  */
+#line 591 "bison_parser.y"
+              { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
+#line 7852 "bison_parser.cpp"
     break;
 
-  case 50:
-#line 590 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
+#line 598 "bison_parser.y"
+                                                                          {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
   (yyval.export_stmt)->schema = (yyvsp[-3].table_name).schema;
@@ -3614,12 +7868,12 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3618 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7872 "bison_parser.cpp"
     break;
 
-  case 51:
-#line 605 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
+#line 613 "bison_parser.y"
+                                                                {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
   (yyval.export_stmt)->select = (yyvsp[-3].select_stmt);
@@ -3633,56 +7887,59 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3637 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7891 "bison_parser.cpp"
     break;
 
-  case 52:
-#line 625 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 3643 "bison_parser.cpp" /* yacc.c:1646  */
+  case 52: /* show_statement: SHOW TABLES  */
+#line 633 "bison_parser.y"
+                             { (yyval.show_stmt) = new ShowStatement(kShowTables); }
+#line 7897 "bison_parser.cpp"
     break;
 
-  case 53:
-#line 626 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 53: /* show_statement: SHOW COLUMNS table_name  */
+#line 634 "bison_parser.y"
+                          {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3653 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7907 "bison_parser.cpp"
     break;
 
-  case 54:
-#line 631 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 54: /* show_statement: DESCRIBE table_name  */
+#line 639 "bison_parser.y"
+                      {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3663 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7917 "bison_parser.cpp"
     break;
 
-  case 55:
-#line 642 "bison_parser.y" /* yacc.c:1646  */
-    {
-  (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
-  (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
-  (yyval.create_stmt)->schema = (yyvsp[-4].table_name).schema;
-  (yyval.create_stmt)->tableName = (yyvsp[-4].table_name).name;
+  case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
+#line 650 "bison_parser.y"
+                                                                                         {
   if (strcasecmp((yyvsp[-2].sval), "tbl") != 0) {
+    free((yyvsp[-4].table_name).schema);
+    free((yyvsp[-4].table_name).name);
     free((yyvsp[-2].sval));
+    free((yyvsp[0].sval));
     yyerror(&yyloc, result, scanner, "File type is unknown.");
     YYERROR;
   }
   free((yyvsp[-2].sval));
+  (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
+  (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
+  (yyval.create_stmt)->schema = (yyvsp[-4].table_name).schema;
+  (yyval.create_stmt)->tableName = (yyvsp[-4].table_name).name;
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 3681 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7938 "bison_parser.cpp"
     break;
 
-  case 56:
-#line 655 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
+#line 666 "bison_parser.y"
+                                                                      {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
   (yyval.create_stmt)->schema = (yyvsp[-3].table_name).schema;
@@ -3694,36 +7951,37 @@ yyreduce:
     YYERROR;
   }
 }
-#line 3698 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7955 "bison_parser.cpp"
     break;
 
-  case 57:
-#line 667 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
+#line 678 "bison_parser.y"
+                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
   (yyval.create_stmt)->schema = (yyvsp[-2].table_name).schema;
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3710 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7967 "bison_parser.cpp"
     break;
 
-  case 58:
-#line 674 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
+#line 685 "bison_parser.y"
+                                                                                   {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-6].bval);
+  (yyval.create_stmt)->schema = (yyvsp[-3].table_name).schema;
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3722 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7980 "bison_parser.cpp"
     break;
 
-  case 59:
-#line 681 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
+#line 693 "bison_parser.y"
+                                                                            {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
   (yyval.create_stmt)->schema = (yyvsp[-3].table_name).schema;
@@ -3731,500 +7989,503 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3735 "bison_parser.cpp" /* yacc.c:1646  */
+#line 7993 "bison_parser.cpp"
     break;
 
-  case 60:
-#line 690 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 3741 "bison_parser.cpp" /* yacc.c:1646  */
+  case 60: /* opt_not_exists: IF NOT EXISTS  */
+#line 702 "bison_parser.y"
+                               { (yyval.bval) = true; }
+#line 7999 "bison_parser.cpp"
     break;
 
-  case 61:
-#line 691 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 3747 "bison_parser.cpp" /* yacc.c:1646  */
+  case 61: /* opt_not_exists: %empty  */
+#line 703 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 8005 "bison_parser.cpp"
     break;
 
-  case 62:
-#line 693 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 62: /* table_elem_commalist: table_elem  */
+#line 705 "bison_parser.y"
+                                  {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3756 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8014 "bison_parser.cpp"
     break;
 
-  case 63:
-#line 697 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
+#line 709 "bison_parser.y"
+                                      {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 3765 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8023 "bison_parser.cpp"
     break;
 
-  case 64:
-#line 702 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 3771 "bison_parser.cpp" /* yacc.c:1646  */
+  case 64: /* table_elem: column_def  */
+#line 714 "bison_parser.y"
+                        { (yyval.table_element_t) = (yyvsp[0].column_t); }
+#line 8029 "bison_parser.cpp"
     break;
 
-  case 65:
-#line 703 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 3777 "bison_parser.cpp" /* yacc.c:1646  */
+  case 65: /* table_elem: table_constraint  */
+#line 715 "bison_parser.y"
+                   { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
+#line 8035 "bison_parser.cpp"
     break;
 
-  case 66:
-#line 705 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
+#line 717 "bison_parser.y"
+                                                           {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
     yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{(yyvsp[-2].sval)}).c_str());
   }
+  // The column definition owns the constraints and references now.
+  (yyvsp[0].column_constraints_t)->constraints = nullptr;
+  (yyvsp[0].column_constraints_t)->references = nullptr;
   delete (yyvsp[0].column_constraints_t);
 }
-#line 3789 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8050 "bison_parser.cpp"
     break;
 
-  case 67:
-#line 713 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 3795 "bison_parser.cpp" /* yacc.c:1646  */
+  case 67: /* column_type: BIGINT  */
+#line 728 "bison_parser.y"
+                     { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
+#line 8056 "bison_parser.cpp"
     break;
 
-  case 68:
-#line 714 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 3801 "bison_parser.cpp" /* yacc.c:1646  */
+  case 68: /* column_type: BOOLEAN  */
+#line 729 "bison_parser.y"
+          { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
+#line 8062 "bison_parser.cpp"
     break;
 
-  case 69:
-#line 715 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 3807 "bison_parser.cpp" /* yacc.c:1646  */
+  case 69: /* column_type: CHAR '(' INTVAL ')'  */
+#line 730 "bison_parser.y"
+                      { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
+#line 8068 "bison_parser.cpp"
     break;
 
-  case 70:
-#line 716 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 3813 "bison_parser.cpp" /* yacc.c:1646  */
+  case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
+#line 731 "bison_parser.y"
+                                   { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
+#line 8074 "bison_parser.cpp"
     break;
 
-  case 71:
-#line 717 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 3819 "bison_parser.cpp" /* yacc.c:1646  */
+  case 71: /* column_type: DATE  */
+#line 732 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
+#line 8080 "bison_parser.cpp"
     break;
 
-  case 72:
-#line 718 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 3825 "bison_parser.cpp" /* yacc.c:1646  */
+  case 72: /* column_type: DATETIME  */
+#line 733 "bison_parser.y"
+           { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
+#line 8086 "bison_parser.cpp"
     break;
 
-  case 73:
-#line 719 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 73: /* column_type: DECIMAL opt_decimal_specification  */
+#line 734 "bison_parser.y"
+                                    {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 3834 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8095 "bison_parser.cpp"
     break;
 
-  case 74:
-#line 723 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 3840 "bison_parser.cpp" /* yacc.c:1646  */
+  case 74: /* column_type: DOUBLE  */
+#line 738 "bison_parser.y"
+         { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
+#line 8101 "bison_parser.cpp"
     break;
 
-  case 75:
-#line 724 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 3846 "bison_parser.cpp" /* yacc.c:1646  */
+  case 75: /* column_type: FLOAT  */
+#line 739 "bison_parser.y"
+        { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
+#line 8107 "bison_parser.cpp"
     break;
 
-  case 76:
-#line 725 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 3852 "bison_parser.cpp" /* yacc.c:1646  */
+  case 76: /* column_type: INT  */
+#line 740 "bison_parser.y"
+      { (yyval.column_type_t) = ColumnType{DataType::INT}; }
+#line 8113 "bison_parser.cpp"
     break;
 
-  case 77:
-#line 726 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 3858 "bison_parser.cpp" /* yacc.c:1646  */
+  case 77: /* column_type: INTEGER  */
+#line 741 "bison_parser.y"
+          { (yyval.column_type_t) = ColumnType{DataType::INT}; }
+#line 8119 "bison_parser.cpp"
     break;
 
-  case 78:
-#line 727 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 3864 "bison_parser.cpp" /* yacc.c:1646  */
+  case 78: /* column_type: LONG  */
+#line 742 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
+#line 8125 "bison_parser.cpp"
     break;
 
-  case 79:
-#line 728 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 3870 "bison_parser.cpp" /* yacc.c:1646  */
+  case 79: /* column_type: REAL  */
+#line 743 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
+#line 8131 "bison_parser.cpp"
     break;
 
-  case 80:
-#line 729 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 3876 "bison_parser.cpp" /* yacc.c:1646  */
+  case 80: /* column_type: SMALLINT  */
+#line 744 "bison_parser.y"
+           { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
+#line 8137 "bison_parser.cpp"
     break;
 
-  case 81:
-#line 730 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 3882 "bison_parser.cpp" /* yacc.c:1646  */
+  case 81: /* column_type: TEXT  */
+#line 745 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
+#line 8143 "bison_parser.cpp"
     break;
 
-  case 82:
-#line 731 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 3888 "bison_parser.cpp" /* yacc.c:1646  */
+  case 82: /* column_type: TIME opt_time_precision  */
+#line 746 "bison_parser.y"
+                          { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
+#line 8149 "bison_parser.cpp"
     break;
 
-  case 83:
-#line 732 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 3894 "bison_parser.cpp" /* yacc.c:1646  */
+  case 83: /* column_type: TIMESTAMP  */
+#line 747 "bison_parser.y"
+            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
+#line 8155 "bison_parser.cpp"
     break;
 
-  case 84:
-#line 733 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 3900 "bison_parser.cpp" /* yacc.c:1646  */
+  case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
+#line 748 "bison_parser.y"
+                         { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
+#line 8161 "bison_parser.cpp"
     break;
 
-  case 85:
-#line 735 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival) = (yyvsp[-1].ival); }
-#line 3906 "bison_parser.cpp" /* yacc.c:1646  */
+  case 85: /* opt_time_precision: '(' INTVAL ')'  */
+#line 750 "bison_parser.y"
+                                    { (yyval.ival) = (yyvsp[-1].ival); }
+#line 8167 "bison_parser.cpp"
     break;
 
-  case 86:
-#line 736 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival) = 0; }
-#line 3912 "bison_parser.cpp" /* yacc.c:1646  */
+  case 86: /* opt_time_precision: %empty  */
+#line 751 "bison_parser.y"
+              { (yyval.ival) = 0; }
+#line 8173 "bison_parser.cpp"
     break;
 
-  case 87:
-#line 738 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 3918 "bison_parser.cpp" /* yacc.c:1646  */
+  case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
+#line 753 "bison_parser.y"
+                                                      { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
+#line 8179 "bison_parser.cpp"
     break;
 
-  case 88:
-#line 739 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 3924 "bison_parser.cpp" /* yacc.c:1646  */
+  case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
+#line 754 "bison_parser.y"
+                 { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
+#line 8185 "bison_parser.cpp"
     break;
 
-  case 89:
-#line 740 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 3930 "bison_parser.cpp" /* yacc.c:1646  */
+  case 89: /* opt_decimal_specification: %empty  */
+#line 755 "bison_parser.y"
+              { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
+#line 8191 "bison_parser.cpp"
     break;
 
-  case 90:
-#line 742 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 3936 "bison_parser.cpp" /* yacc.c:1646  */
+  case 90: /* opt_column_constraints: column_constraints  */
+#line 757 "bison_parser.y"
+                                            { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
+#line 8197 "bison_parser.cpp"
     break;
 
-  case 91:
-#line 743 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 3942 "bison_parser.cpp" /* yacc.c:1646  */
+  case 91: /* opt_column_constraints: %empty  */
+#line 758 "bison_parser.y"
+              { (yyval.column_constraints_t) = new ColumnConstraints(); }
+#line 8203 "bison_parser.cpp"
     break;
 
-  case 92:
-#line 745 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 92: /* column_constraints: column_constraint  */
+#line 760 "bison_parser.y"
+                                       {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 3951 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8212 "bison_parser.cpp"
     break;
 
-  case 93:
-#line 749 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 93: /* column_constraints: column_constraints column_constraint  */
+#line 764 "bison_parser.y"
+                                       {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 3960 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8221 "bison_parser.cpp"
     break;
 
-  case 94:
-#line 753 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 94: /* column_constraints: references_spec  */
+#line 768 "bison_parser.y"
+                  {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 3970 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8231 "bison_parser.cpp"
     break;
 
-  case 95:
-#line 758 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 95: /* column_constraints: column_constraints references_spec  */
+#line 773 "bison_parser.y"
+                                     {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
   (yyvsp[-1].column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 3982 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8243 "bison_parser.cpp"
     break;
 
-  case 96:
-#line 766 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 3988 "bison_parser.cpp" /* yacc.c:1646  */
+  case 96: /* column_constraint: PRIMARY KEY  */
+#line 781 "bison_parser.y"
+                                { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
+#line 8249 "bison_parser.cpp"
     break;
 
-  case 97:
-#line 767 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 3994 "bison_parser.cpp" /* yacc.c:1646  */
+  case 97: /* column_constraint: UNIQUE  */
+#line 782 "bison_parser.y"
+         { (yyval.column_constraint_t) = ConstraintType::Unique; }
+#line 8255 "bison_parser.cpp"
     break;
 
-  case 98:
-#line 768 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4000 "bison_parser.cpp" /* yacc.c:1646  */
+  case 98: /* column_constraint: NULL  */
+#line 783 "bison_parser.y"
+       { (yyval.column_constraint_t) = ConstraintType::Null; }
+#line 8261 "bison_parser.cpp"
     break;
 
-  case 99:
-#line 769 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4006 "bison_parser.cpp" /* yacc.c:1646  */
+  case 99: /* column_constraint: NOT NULL  */
+#line 784 "bison_parser.y"
+           { (yyval.column_constraint_t) = ConstraintType::NotNull; }
+#line 8267 "bison_parser.cpp"
     break;
 
-  case 100:
-#line 771 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4012 "bison_parser.cpp" /* yacc.c:1646  */
+  case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
+#line 786 "bison_parser.y"
+                                                       { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
+#line 8273 "bison_parser.cpp"
     break;
 
-  case 101:
-#line 772 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4018 "bison_parser.cpp" /* yacc.c:1646  */
+  case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
+#line 787 "bison_parser.y"
+                                 { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
+#line 8279 "bison_parser.cpp"
     break;
 
-  case 102:
-#line 773 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4024 "bison_parser.cpp" /* yacc.c:1646  */
+  case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
+#line 788 "bison_parser.y"
+                                                      { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
+#line 8285 "bison_parser.cpp"
     break;
 
-  case 103:
-#line 775 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4030 "bison_parser.cpp" /* yacc.c:1646  */
+  case 103: /* references_spec: REFERENCES table_name opt_column_list  */
+#line 790 "bison_parser.y"
+                                                        { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
+#line 8291 "bison_parser.cpp"
     break;
 
-  case 104:
-#line 783 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
+#line 798 "bison_parser.y"
+                                                  {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4041 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8302 "bison_parser.cpp"
     break;
 
-  case 105:
-#line 789 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
+#line 804 "bison_parser.y"
+                                  {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4052 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8313 "bison_parser.cpp"
     break;
 
-  case 106:
-#line 795 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
+#line 810 "bison_parser.y"
+                                {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4062 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8323 "bison_parser.cpp"
     break;
 
-  case 107:
-#line 801 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
+#line 816 "bison_parser.y"
+                                   {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4072 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8333 "bison_parser.cpp"
     break;
 
-  case 108:
-#line 807 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 4078 "bison_parser.cpp" /* yacc.c:1646  */
+  case 108: /* opt_exists: IF EXISTS  */
+#line 822 "bison_parser.y"
+                       { (yyval.bval) = true; }
+#line 8339 "bison_parser.cpp"
     break;
 
-  case 109:
-#line 808 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 4084 "bison_parser.cpp" /* yacc.c:1646  */
+  case 109: /* opt_exists: %empty  */
+#line 823 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 8345 "bison_parser.cpp"
     break;
 
-  case 110:
-#line 815 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
+#line 830 "bison_parser.y"
+                                                                 {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4094 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8355 "bison_parser.cpp"
     break;
 
-  case 111:
-#line 821 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4100 "bison_parser.cpp" /* yacc.c:1646  */
+  case 111: /* alter_action: drop_action  */
+#line 836 "bison_parser.y"
+                           { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
+#line 8361 "bison_parser.cpp"
     break;
 
-  case 112:
-#line 823 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
+#line 838 "bison_parser.y"
+                                                {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4109 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8370 "bison_parser.cpp"
     break;
 
-  case 113:
-#line 833 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 113: /* delete_statement: DELETE FROM table_name opt_where  */
+#line 848 "bison_parser.y"
+                                                    {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4120 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8381 "bison_parser.cpp"
     break;
 
-  case 114:
-#line 840 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 114: /* truncate_statement: TRUNCATE table_name  */
+#line 855 "bison_parser.y"
+                                         {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4130 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8391 "bison_parser.cpp"
     break;
 
-  case 115:
-#line 851 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
+#line 866 "bison_parser.y"
+                                                                                               {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
   (yyval.insert_stmt)->tableName = (yyvsp[-5].table_name).name;
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4142 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8403 "bison_parser.cpp"
     break;
 
-  case 116:
-#line 858 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
+#line 873 "bison_parser.y"
+                                                         {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
   (yyval.insert_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4154 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8415 "bison_parser.cpp"
     break;
 
-  case 117:
-#line 866 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4160 "bison_parser.cpp" /* yacc.c:1646  */
+  case 117: /* opt_column_list: '(' ident_commalist ')'  */
+#line 881 "bison_parser.y"
+                                          { (yyval.str_vec) = (yyvsp[-1].str_vec); }
+#line 8421 "bison_parser.cpp"
     break;
 
-  case 118:
-#line 867 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.str_vec) = nullptr; }
-#line 4166 "bison_parser.cpp" /* yacc.c:1646  */
+  case 118: /* opt_column_list: %empty  */
+#line 882 "bison_parser.y"
+              { (yyval.str_vec) = nullptr; }
+#line 8427 "bison_parser.cpp"
     break;
 
-  case 119:
-#line 874 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
+#line 889 "bison_parser.y"
+                                                                                        {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4177 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8438 "bison_parser.cpp"
     break;
 
-  case 120:
-#line 881 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 120: /* update_clause_commalist: update_clause  */
+#line 896 "bison_parser.y"
+                                        {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4186 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8447 "bison_parser.cpp"
     break;
 
-  case 121:
-#line 885 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
+#line 900 "bison_parser.y"
+                                            {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4195 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8456 "bison_parser.cpp"
     break;
 
-  case 122:
-#line 890 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 122: /* update_clause: IDENTIFIER '=' expr  */
+#line 905 "bison_parser.y"
+                                    {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4205 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8466 "bison_parser.cpp"
     break;
 
-  case 123:
-#line 900 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 123: /* select_statement: opt_with_clause select_with_paren  */
+#line 915 "bison_parser.y"
+                                                     {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4214 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8475 "bison_parser.cpp"
     break;
 
-  case 124:
-#line 904 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 124: /* select_statement: opt_with_clause select_no_paren  */
+#line 919 "bison_parser.y"
+                                  {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4223 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8484 "bison_parser.cpp"
     break;
 
-  case 125:
-#line 908 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
+#line 923 "bison_parser.y"
+                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
     (yyval.select_stmt)->setOperations = new std::vector<SetOperation*>();
@@ -4235,18 +8496,18 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4239 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8500 "bison_parser.cpp"
     break;
 
-  case 128:
-#line 922 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4245 "bison_parser.cpp" /* yacc.c:1646  */
+  case 128: /* select_within_set_operation_no_parentheses: select_clause  */
+#line 937 "bison_parser.y"
+                                                           { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
+#line 8506 "bison_parser.cpp"
     break;
 
-  case 129:
-#line 923 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
+#line 938 "bison_parser.y"
+                                                         {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
     (yyval.select_stmt)->setOperations = new std::vector<SetOperation*>();
@@ -4254,24 +8515,24 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4258 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8519 "bison_parser.cpp"
     break;
 
-  case 130:
-#line 932 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4264 "bison_parser.cpp" /* yacc.c:1646  */
+  case 130: /* select_with_paren: '(' select_no_paren ')'  */
+#line 947 "bison_parser.y"
+                                            { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
+#line 8525 "bison_parser.cpp"
     break;
 
-  case 131:
-#line 933 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4270 "bison_parser.cpp" /* yacc.c:1646  */
+  case 131: /* select_with_paren: '(' select_with_paren ')'  */
+#line 948 "bison_parser.y"
+                            { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
+#line 8531 "bison_parser.cpp"
     break;
 
-  case 132:
-#line 935 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
+#line 950 "bison_parser.y"
+                                                                       {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
 
@@ -4285,12 +8546,12 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4289 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8550 "bison_parser.cpp"
     break;
 
-  case 133:
-#line 949 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
+#line 964 "bison_parser.y"
+                                                                                                {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
     (yyval.select_stmt)->setOperations = new std::vector<SetOperation*>();
@@ -4301,60 +8562,60 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4305 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8566 "bison_parser.cpp"
     break;
 
-  case 134:
-#line 961 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 134: /* set_operator: set_type opt_all  */
+#line 976 "bison_parser.y"
+                                {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4314 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8575 "bison_parser.cpp"
     break;
 
-  case 135:
-#line 966 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 135: /* set_type: UNION  */
+#line 981 "bison_parser.y"
+                 {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4323 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8584 "bison_parser.cpp"
     break;
 
-  case 136:
-#line 970 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 136: /* set_type: INTERSECT  */
+#line 985 "bison_parser.y"
+            {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4332 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8593 "bison_parser.cpp"
     break;
 
-  case 137:
-#line 974 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 137: /* set_type: EXCEPT  */
+#line 989 "bison_parser.y"
+         {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4341 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8602 "bison_parser.cpp"
     break;
 
-  case 138:
-#line 979 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 4347 "bison_parser.cpp" /* yacc.c:1646  */
+  case 138: /* opt_all: ALL  */
+#line 994 "bison_parser.y"
+              { (yyval.bval) = true; }
+#line 8608 "bison_parser.cpp"
     break;
 
-  case 139:
-#line 980 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 4353 "bison_parser.cpp" /* yacc.c:1646  */
+  case 139: /* opt_all: %empty  */
+#line 995 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 8614 "bison_parser.cpp"
     break;
 
-  case 140:
-#line 982 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
+#line 997 "bison_parser.y"
+                                                                                            {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
   (yyval.select_stmt)->selectDistinct = (yyvsp[-4].bval);
@@ -4363,142 +8624,142 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4367 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8628 "bison_parser.cpp"
     break;
 
-  case 141:
-#line 992 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 4373 "bison_parser.cpp" /* yacc.c:1646  */
+  case 141: /* opt_distinct: DISTINCT  */
+#line 1007 "bison_parser.y"
+                        { (yyval.bval) = true; }
+#line 8634 "bison_parser.cpp"
     break;
 
-  case 142:
-#line 993 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 4379 "bison_parser.cpp" /* yacc.c:1646  */
+  case 142: /* opt_distinct: %empty  */
+#line 1008 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 8640 "bison_parser.cpp"
     break;
 
-  case 144:
-#line 997 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table) = (yyvsp[0].table); }
-#line 4385 "bison_parser.cpp" /* yacc.c:1646  */
+  case 144: /* opt_from_clause: from_clause  */
+#line 1012 "bison_parser.y"
+                              { (yyval.table) = (yyvsp[0].table); }
+#line 8646 "bison_parser.cpp"
     break;
 
-  case 145:
-#line 998 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table) = nullptr; }
-#line 4391 "bison_parser.cpp" /* yacc.c:1646  */
+  case 145: /* opt_from_clause: %empty  */
+#line 1013 "bison_parser.y"
+              { (yyval.table) = nullptr; }
+#line 8652 "bison_parser.cpp"
     break;
 
-  case 146:
-#line 1000 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table) = (yyvsp[0].table); }
-#line 4397 "bison_parser.cpp" /* yacc.c:1646  */
+  case 146: /* from_clause: FROM table_ref  */
+#line 1015 "bison_parser.y"
+                             { (yyval.table) = (yyvsp[0].table); }
+#line 8658 "bison_parser.cpp"
     break;
 
-  case 147:
-#line 1002 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = (yyvsp[0].expr); }
-#line 4403 "bison_parser.cpp" /* yacc.c:1646  */
+  case 147: /* opt_where: WHERE expr  */
+#line 1017 "bison_parser.y"
+                       { (yyval.expr) = (yyvsp[0].expr); }
+#line 8664 "bison_parser.cpp"
     break;
 
-  case 148:
-#line 1003 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = nullptr; }
-#line 4409 "bison_parser.cpp" /* yacc.c:1646  */
+  case 148: /* opt_where: %empty  */
+#line 1018 "bison_parser.y"
+              { (yyval.expr) = nullptr; }
+#line 8670 "bison_parser.cpp"
     break;
 
-  case 149:
-#line 1005 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 149: /* opt_group: GROUP BY expr_list opt_having  */
+#line 1020 "bison_parser.y"
+                                          {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4419 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8680 "bison_parser.cpp"
     break;
 
-  case 150:
-#line 1010 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.group_t) = nullptr; }
-#line 4425 "bison_parser.cpp" /* yacc.c:1646  */
+  case 150: /* opt_group: %empty  */
+#line 1025 "bison_parser.y"
+              { (yyval.group_t) = nullptr; }
+#line 8686 "bison_parser.cpp"
     break;
 
-  case 151:
-#line 1012 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = (yyvsp[0].expr); }
-#line 4431 "bison_parser.cpp" /* yacc.c:1646  */
+  case 151: /* opt_having: HAVING expr  */
+#line 1027 "bison_parser.y"
+                         { (yyval.expr) = (yyvsp[0].expr); }
+#line 8692 "bison_parser.cpp"
     break;
 
-  case 152:
-#line 1013 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = nullptr; }
-#line 4437 "bison_parser.cpp" /* yacc.c:1646  */
+  case 152: /* opt_having: %empty  */
+#line 1028 "bison_parser.y"
+              { (yyval.expr) = nullptr; }
+#line 8698 "bison_parser.cpp"
     break;
 
-  case 153:
-#line 1015 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4443 "bison_parser.cpp" /* yacc.c:1646  */
+  case 153: /* opt_order: ORDER BY order_list  */
+#line 1030 "bison_parser.y"
+                                { (yyval.order_vec) = (yyvsp[0].order_vec); }
+#line 8704 "bison_parser.cpp"
     break;
 
-  case 154:
-#line 1016 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_vec) = nullptr; }
-#line 4449 "bison_parser.cpp" /* yacc.c:1646  */
+  case 154: /* opt_order: %empty  */
+#line 1031 "bison_parser.y"
+              { (yyval.order_vec) = nullptr; }
+#line 8710 "bison_parser.cpp"
     break;
 
-  case 155:
-#line 1018 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 155: /* order_list: order_desc  */
+#line 1033 "bison_parser.y"
+                        {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4458 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8719 "bison_parser.cpp"
     break;
 
-  case 156:
-#line 1022 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 156: /* order_list: order_list ',' order_desc  */
+#line 1037 "bison_parser.y"
+                            {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4467 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8728 "bison_parser.cpp"
     break;
 
-  case 157:
-#line 1027 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4473 "bison_parser.cpp" /* yacc.c:1646  */
+  case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
+#line 1042 "bison_parser.y"
+                                                   { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
+#line 8734 "bison_parser.cpp"
     break;
 
-  case 158:
-#line 1029 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_type) = kOrderAsc; }
-#line 4479 "bison_parser.cpp" /* yacc.c:1646  */
+  case 158: /* opt_order_type: ASC  */
+#line 1044 "bison_parser.y"
+                     { (yyval.order_type) = kOrderAsc; }
+#line 8740 "bison_parser.cpp"
     break;
 
-  case 159:
-#line 1030 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_type) = kOrderDesc; }
-#line 4485 "bison_parser.cpp" /* yacc.c:1646  */
+  case 159: /* opt_order_type: DESC  */
+#line 1045 "bison_parser.y"
+       { (yyval.order_type) = kOrderDesc; }
+#line 8746 "bison_parser.cpp"
     break;
 
-  case 160:
-#line 1031 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_type) = kOrderAsc; }
-#line 4491 "bison_parser.cpp" /* yacc.c:1646  */
+  case 160: /* opt_order_type: %empty  */
+#line 1046 "bison_parser.y"
+              { (yyval.order_type) = kOrderAsc; }
+#line 8752 "bison_parser.cpp"
     break;
 
-  case 161:
-#line 1033 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4497 "bison_parser.cpp" /* yacc.c:1646  */
+  case 161: /* opt_null_ordering: %empty  */
+#line 1048 "bison_parser.y"
+                                { (yyval.null_ordering_t) = NullOrdering::Undefined; }
+#line 8758 "bison_parser.cpp"
     break;
 
-  case 162:
-#line 1034 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
+#line 1049 "bison_parser.y"
+                        {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
     if (strcasecmp((yyvsp[0].sval), "first") == 0) {
@@ -4517,116 +8778,116 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4521 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8782 "bison_parser.cpp"
     break;
 
-  case 163:
-#line 1056 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4527 "bison_parser.cpp" /* yacc.c:1646  */
+  case 163: /* opt_top: TOP int_literal  */
+#line 1071 "bison_parser.y"
+                          { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
+#line 8788 "bison_parser.cpp"
     break;
 
-  case 164:
-#line 1057 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = nullptr; }
-#line 4533 "bison_parser.cpp" /* yacc.c:1646  */
+  case 164: /* opt_top: %empty  */
+#line 1072 "bison_parser.y"
+              { (yyval.limit) = nullptr; }
+#line 8794 "bison_parser.cpp"
     break;
 
-  case 165:
-#line 1059 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4539 "bison_parser.cpp" /* yacc.c:1646  */
+  case 165: /* opt_limit: LIMIT expr  */
+#line 1074 "bison_parser.y"
+                       { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
+#line 8800 "bison_parser.cpp"
     break;
 
-  case 166:
-#line 1060 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4545 "bison_parser.cpp" /* yacc.c:1646  */
+  case 166: /* opt_limit: OFFSET expr  */
+#line 1075 "bison_parser.y"
+              { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
+#line 8806 "bison_parser.cpp"
     break;
 
-  case 167:
-#line 1061 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4551 "bison_parser.cpp" /* yacc.c:1646  */
+  case 167: /* opt_limit: LIMIT expr OFFSET expr  */
+#line 1076 "bison_parser.y"
+                         { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
+#line 8812 "bison_parser.cpp"
     break;
 
-  case 168:
-#line 1062 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4557 "bison_parser.cpp" /* yacc.c:1646  */
+  case 168: /* opt_limit: LIMIT ALL  */
+#line 1077 "bison_parser.y"
+            { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
+#line 8818 "bison_parser.cpp"
     break;
 
-  case 169:
-#line 1063 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4563 "bison_parser.cpp" /* yacc.c:1646  */
+  case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
+#line 1078 "bison_parser.y"
+                        { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
+#line 8824 "bison_parser.cpp"
     break;
 
-  case 170:
-#line 1064 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = nullptr; }
-#line 4569 "bison_parser.cpp" /* yacc.c:1646  */
+  case 170: /* opt_limit: %empty  */
+#line 1079 "bison_parser.y"
+              { (yyval.limit) = nullptr; }
+#line 8830 "bison_parser.cpp"
     break;
 
-  case 171:
-#line 1069 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 171: /* expr_list: expr_alias  */
+#line 1084 "bison_parser.y"
+                       {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4578 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8839 "bison_parser.cpp"
     break;
 
-  case 172:
-#line 1073 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 172: /* expr_list: expr_list ',' expr_alias  */
+#line 1088 "bison_parser.y"
+                           {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4587 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8848 "bison_parser.cpp"
     break;
 
-  case 173:
-#line 1079 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4593 "bison_parser.cpp" /* yacc.c:1646  */
+  case 173: /* opt_extended_literal_list: extended_literal_list  */
+#line 1094 "bison_parser.y"
+                                                  { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
+#line 8854 "bison_parser.cpp"
     break;
 
-  case 174:
-#line 1080 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = nullptr; }
-#line 4599 "bison_parser.cpp" /* yacc.c:1646  */
+  case 174: /* opt_extended_literal_list: %empty  */
+#line 1095 "bison_parser.y"
+              { (yyval.expr_vec) = nullptr; }
+#line 8860 "bison_parser.cpp"
     break;
 
-  case 175:
-#line 1082 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 175: /* extended_literal_list: casted_extended_literal  */
+#line 1097 "bison_parser.y"
+                                                {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4608 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8869 "bison_parser.cpp"
     break;
 
-  case 176:
-#line 1086 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
+#line 1101 "bison_parser.y"
+                                                    {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4617 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8878 "bison_parser.cpp"
     break;
 
-  case 178:
-#line 1091 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
+#line 1106 "bison_parser.y"
+                                                                                          {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4625 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8886 "bison_parser.cpp"
     break;
 
-  case 179:
-#line 1095 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 179: /* extended_literal: literal  */
+#line 1110 "bison_parser.y"
+                           {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
     yyerror(&yyloc, result, scanner, "Parameter ? is not a valid literal.");
@@ -4634,24 +8895,24 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4638 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8899 "bison_parser.cpp"
     break;
 
-  case 180:
-#line 1103 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4644 "bison_parser.cpp" /* yacc.c:1646  */
+  case 180: /* extended_literal: '-' num_literal  */
+#line 1118 "bison_parser.y"
+                  { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
+#line 8905 "bison_parser.cpp"
     break;
 
-  case 181:
-#line 1104 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4650 "bison_parser.cpp" /* yacc.c:1646  */
+  case 181: /* extended_literal: '-' interval_literal  */
+#line 1119 "bison_parser.y"
+                       { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
+#line 8911 "bison_parser.cpp"
     break;
 
-  case 182:
-#line 1106 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 182: /* expr_alias: expr opt_alias  */
+#line 1121 "bison_parser.y"
+                            {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
     (yyval.expr)->alias = (yyvsp[0].alias_t)->name;
@@ -4659,520 +8920,523 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4663 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8924 "bison_parser.cpp"
     break;
 
-  case 188:
-#line 1117 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4669 "bison_parser.cpp" /* yacc.c:1646  */
+  case 188: /* operand: '(' expr ')'  */
+#line 1132 "bison_parser.y"
+                       { (yyval.expr) = (yyvsp[-1].expr); }
+#line 8930 "bison_parser.cpp"
     break;
 
-  case 198:
-#line 1119 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 198: /* operand: '(' select_no_paren ')'  */
+#line 1134 "bison_parser.y"
+                                         {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4677 "bison_parser.cpp" /* yacc.c:1646  */
+#line 8938 "bison_parser.cpp"
     break;
 
-  case 201:
-#line 1125 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4683 "bison_parser.cpp" /* yacc.c:1646  */
+  case 201: /* unary_expr: '-' operand  */
+#line 1140 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
+#line 8944 "bison_parser.cpp"
     break;
 
-  case 202:
-#line 1126 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4689 "bison_parser.cpp" /* yacc.c:1646  */
+  case 202: /* unary_expr: NOT operand  */
+#line 1141 "bison_parser.y"
+              { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
+#line 8950 "bison_parser.cpp"
     break;
 
-  case 203:
-#line 1127 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4695 "bison_parser.cpp" /* yacc.c:1646  */
+  case 203: /* unary_expr: operand ISNULL  */
+#line 1142 "bison_parser.y"
+                 { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
+#line 8956 "bison_parser.cpp"
     break;
 
-  case 204:
-#line 1128 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4701 "bison_parser.cpp" /* yacc.c:1646  */
+  case 204: /* unary_expr: operand IS NULL  */
+#line 1143 "bison_parser.y"
+                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
+#line 8962 "bison_parser.cpp"
     break;
 
-  case 205:
-#line 1129 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4707 "bison_parser.cpp" /* yacc.c:1646  */
+  case 205: /* unary_expr: operand IS NOT NULL  */
+#line 1144 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
+#line 8968 "bison_parser.cpp"
     break;
 
-  case 207:
-#line 1131 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4713 "bison_parser.cpp" /* yacc.c:1646  */
+  case 207: /* binary_expr: operand '-' operand  */
+#line 1146 "bison_parser.y"
+                                              { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
+#line 8974 "bison_parser.cpp"
     break;
 
-  case 208:
-#line 1132 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4719 "bison_parser.cpp" /* yacc.c:1646  */
+  case 208: /* binary_expr: operand '+' operand  */
+#line 1147 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
+#line 8980 "bison_parser.cpp"
     break;
 
-  case 209:
-#line 1133 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4725 "bison_parser.cpp" /* yacc.c:1646  */
+  case 209: /* binary_expr: operand '/' operand  */
+#line 1148 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
+#line 8986 "bison_parser.cpp"
     break;
 
-  case 210:
-#line 1134 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4731 "bison_parser.cpp" /* yacc.c:1646  */
+  case 210: /* binary_expr: operand '*' operand  */
+#line 1149 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
+#line 8992 "bison_parser.cpp"
     break;
 
-  case 211:
-#line 1135 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4737 "bison_parser.cpp" /* yacc.c:1646  */
+  case 211: /* binary_expr: operand '%' operand  */
+#line 1150 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
+#line 8998 "bison_parser.cpp"
     break;
 
-  case 212:
-#line 1136 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4743 "bison_parser.cpp" /* yacc.c:1646  */
+  case 212: /* binary_expr: operand '^' operand  */
+#line 1151 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
+#line 9004 "bison_parser.cpp"
     break;
 
-  case 213:
-#line 1137 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4749 "bison_parser.cpp" /* yacc.c:1646  */
+  case 213: /* binary_expr: operand LIKE operand  */
+#line 1152 "bison_parser.y"
+                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
+#line 9010 "bison_parser.cpp"
     break;
 
-  case 214:
-#line 1138 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4755 "bison_parser.cpp" /* yacc.c:1646  */
+  case 214: /* binary_expr: operand NOT LIKE operand  */
+#line 1153 "bison_parser.y"
+                           { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
+#line 9016 "bison_parser.cpp"
     break;
 
-  case 215:
-#line 1139 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4761 "bison_parser.cpp" /* yacc.c:1646  */
+  case 215: /* binary_expr: operand ILIKE operand  */
+#line 1154 "bison_parser.y"
+                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
+#line 9022 "bison_parser.cpp"
     break;
 
-  case 216:
-#line 1140 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 4767 "bison_parser.cpp" /* yacc.c:1646  */
+  case 216: /* binary_expr: operand CONCAT operand  */
+#line 1155 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
+#line 9028 "bison_parser.cpp"
     break;
 
-  case 217:
-#line 1142 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 4773 "bison_parser.cpp" /* yacc.c:1646  */
+  case 217: /* logic_expr: expr AND expr  */
+#line 1157 "bison_parser.y"
+                           { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
+#line 9034 "bison_parser.cpp"
     break;
 
-  case 218:
-#line 1143 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 4779 "bison_parser.cpp" /* yacc.c:1646  */
+  case 218: /* logic_expr: expr OR expr  */
+#line 1158 "bison_parser.y"
+               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
+#line 9040 "bison_parser.cpp"
     break;
 
-  case 219:
-#line 1145 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 4785 "bison_parser.cpp" /* yacc.c:1646  */
+  case 219: /* in_expr: operand IN '(' expr_list ')'  */
+#line 1160 "bison_parser.y"
+                                       { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
+#line 9046 "bison_parser.cpp"
     break;
 
-  case 220:
-#line 1146 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 4791 "bison_parser.cpp" /* yacc.c:1646  */
+  case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
+#line 1161 "bison_parser.y"
+                                   { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
+#line 9052 "bison_parser.cpp"
     break;
 
-  case 221:
-#line 1147 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 4797 "bison_parser.cpp" /* yacc.c:1646  */
+  case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
+#line 1162 "bison_parser.y"
+                                     { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
+#line 9058 "bison_parser.cpp"
     break;
 
-  case 222:
-#line 1148 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 4803 "bison_parser.cpp" /* yacc.c:1646  */
+  case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
+#line 1163 "bison_parser.y"
+                                         { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
+#line 9064 "bison_parser.cpp"
     break;
 
-  case 223:
-#line 1152 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 4809 "bison_parser.cpp" /* yacc.c:1646  */
+  case 223: /* case_expr: CASE expr case_list END  */
+#line 1167 "bison_parser.y"
+                                    { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
+#line 9070 "bison_parser.cpp"
     break;
 
-  case 224:
-#line 1153 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4815 "bison_parser.cpp" /* yacc.c:1646  */
+  case 224: /* case_expr: CASE expr case_list ELSE expr END  */
+#line 1168 "bison_parser.y"
+                                    { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
+#line 9076 "bison_parser.cpp"
     break;
 
-  case 225:
-#line 1154 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 4821 "bison_parser.cpp" /* yacc.c:1646  */
+  case 225: /* case_expr: CASE case_list END  */
+#line 1169 "bison_parser.y"
+                     { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
+#line 9082 "bison_parser.cpp"
     break;
 
-  case 226:
-#line 1155 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4827 "bison_parser.cpp" /* yacc.c:1646  */
+  case 226: /* case_expr: CASE case_list ELSE expr END  */
+#line 1170 "bison_parser.y"
+                               { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
+#line 9088 "bison_parser.cpp"
     break;
 
-  case 227:
-#line 1157 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 4833 "bison_parser.cpp" /* yacc.c:1646  */
+  case 227: /* case_list: WHEN expr THEN expr  */
+#line 1172 "bison_parser.y"
+                                { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
+#line 9094 "bison_parser.cpp"
     break;
 
-  case 228:
-#line 1158 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 4839 "bison_parser.cpp" /* yacc.c:1646  */
+  case 228: /* case_list: case_list WHEN expr THEN expr  */
+#line 1173 "bison_parser.y"
+                                { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
+#line 9100 "bison_parser.cpp"
     break;
 
-  case 229:
-#line 1160 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 4845 "bison_parser.cpp" /* yacc.c:1646  */
+  case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
+#line 1175 "bison_parser.y"
+                                             { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
+#line 9106 "bison_parser.cpp"
     break;
 
-  case 230:
-#line 1161 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 4851 "bison_parser.cpp" /* yacc.c:1646  */
+  case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
+#line 1176 "bison_parser.y"
+                                     { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
+#line 9112 "bison_parser.cpp"
     break;
 
-  case 231:
-#line 1163 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 4857 "bison_parser.cpp" /* yacc.c:1646  */
+  case 231: /* comp_expr: operand '=' operand  */
+#line 1178 "bison_parser.y"
+                                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
+#line 9118 "bison_parser.cpp"
     break;
 
-  case 232:
-#line 1164 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 4863 "bison_parser.cpp" /* yacc.c:1646  */
+  case 232: /* comp_expr: operand EQUALS operand  */
+#line 1179 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
+#line 9124 "bison_parser.cpp"
     break;
 
-  case 233:
-#line 1165 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 4869 "bison_parser.cpp" /* yacc.c:1646  */
+  case 233: /* comp_expr: operand NOTEQUALS operand  */
+#line 1180 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
+#line 9130 "bison_parser.cpp"
     break;
 
-  case 234:
-#line 1166 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 4875 "bison_parser.cpp" /* yacc.c:1646  */
+  case 234: /* comp_expr: operand '<' operand  */
+#line 1181 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
+#line 9136 "bison_parser.cpp"
     break;
 
-  case 235:
-#line 1167 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 4881 "bison_parser.cpp" /* yacc.c:1646  */
+  case 235: /* comp_expr: operand '>' operand  */
+#line 1182 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
+#line 9142 "bison_parser.cpp"
     break;
 
-  case 236:
-#line 1168 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 4887 "bison_parser.cpp" /* yacc.c:1646  */
+  case 236: /* comp_expr: operand LESSEQ operand  */
+#line 1183 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
+#line 9148 "bison_parser.cpp"
     break;
 
-  case 237:
-#line 1169 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 4893 "bison_parser.cpp" /* yacc.c:1646  */
+  case 237: /* comp_expr: operand GREATEREQ operand  */
+#line 1184 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
+#line 9154 "bison_parser.cpp"
     break;
 
-  case 238:
-#line 1173 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 4899 "bison_parser.cpp" /* yacc.c:1646  */
+  case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
+#line 1188 "bison_parser.y"
+                                              { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
+#line 9160 "bison_parser.cpp"
     break;
 
-  case 239:
-#line 1174 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 4905 "bison_parser.cpp" /* yacc.c:1646  */
+  case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1189 "bison_parser.y"
+                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
+#line 9166 "bison_parser.cpp"
     break;
 
-  case 240:
-#line 1175 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 4911 "bison_parser.cpp" /* yacc.c:1646  */
+  case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
+#line 1190 "bison_parser.y"
+                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
+#line 9172 "bison_parser.cpp"
     break;
 
-  case 241:
-#line 1176 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 4917 "bison_parser.cpp" /* yacc.c:1646  */
+  case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1191 "bison_parser.y"
+                                                                      { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
+#line 9178 "bison_parser.cpp"
     break;
 
-  case 242:
-#line 1180 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 4923 "bison_parser.cpp" /* yacc.c:1646  */
+  case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
+#line 1195 "bison_parser.y"
+                                                                   { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
+#line 9184 "bison_parser.cpp"
     break;
 
-  case 243:
-#line 1181 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.window_description) = nullptr; }
-#line 4929 "bison_parser.cpp" /* yacc.c:1646  */
+  case 243: /* opt_window: %empty  */
+#line 1196 "bison_parser.y"
+              { (yyval.window_description) = nullptr; }
+#line 9190 "bison_parser.cpp"
     break;
 
-  case 244:
-#line 1183 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4935 "bison_parser.cpp" /* yacc.c:1646  */
+  case 244: /* opt_partition: PARTITION BY expr_list  */
+#line 1198 "bison_parser.y"
+                                       { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
+#line 9196 "bison_parser.cpp"
     break;
 
-  case 245:
-#line 1184 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = nullptr; }
-#line 4941 "bison_parser.cpp" /* yacc.c:1646  */
+  case 245: /* opt_partition: %empty  */
+#line 1199 "bison_parser.y"
+              { (yyval.expr_vec) = nullptr; }
+#line 9202 "bison_parser.cpp"
     break;
 
-  case 246:
-#line 1189 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 4947 "bison_parser.cpp" /* yacc.c:1646  */
+  case 246: /* opt_frame_clause: frame_type frame_bound  */
+#line 1204 "bison_parser.y"
+                                          { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
+#line 9208 "bison_parser.cpp"
     break;
 
-  case 247:
-#line 1190 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 4953 "bison_parser.cpp" /* yacc.c:1646  */
+  case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
+#line 1205 "bison_parser.y"
+                                                 { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
+#line 9214 "bison_parser.cpp"
     break;
 
-  case 248:
-#line 1191 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 248: /* opt_frame_clause: %empty  */
+#line 1206 "bison_parser.y"
+              {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 4961 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9222 "bison_parser.cpp"
     break;
 
-  case 249:
-#line 1195 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_type) = kRange; }
-#line 4967 "bison_parser.cpp" /* yacc.c:1646  */
+  case 249: /* frame_type: RANGE  */
+#line 1210 "bison_parser.y"
+                   { (yyval.frame_type) = kRange; }
+#line 9228 "bison_parser.cpp"
     break;
 
-  case 250:
-#line 1196 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_type) = kRows; }
-#line 4973 "bison_parser.cpp" /* yacc.c:1646  */
+  case 250: /* frame_type: ROWS  */
+#line 1211 "bison_parser.y"
+       { (yyval.frame_type) = kRows; }
+#line 9234 "bison_parser.cpp"
     break;
 
-  case 251:
-#line 1197 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_type) = kGroups; }
-#line 4979 "bison_parser.cpp" /* yacc.c:1646  */
+  case 251: /* frame_type: GROUPS  */
+#line 1212 "bison_parser.y"
+         { (yyval.frame_type) = kGroups; }
+#line 9240 "bison_parser.cpp"
     break;
 
-  case 252:
-#line 1199 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 4985 "bison_parser.cpp" /* yacc.c:1646  */
+  case 252: /* frame_bound: UNBOUNDED PRECEDING  */
+#line 1214 "bison_parser.y"
+                                  { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
+#line 9246 "bison_parser.cpp"
     break;
 
-  case 253:
-#line 1200 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 4991 "bison_parser.cpp" /* yacc.c:1646  */
+  case 253: /* frame_bound: INTVAL PRECEDING  */
+#line 1215 "bison_parser.y"
+                   { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
+#line 9252 "bison_parser.cpp"
     break;
 
-  case 254:
-#line 1201 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 4997 "bison_parser.cpp" /* yacc.c:1646  */
+  case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
+#line 1216 "bison_parser.y"
+                      { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
+#line 9258 "bison_parser.cpp"
     break;
 
-  case 255:
-#line 1202 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5003 "bison_parser.cpp" /* yacc.c:1646  */
+  case 255: /* frame_bound: INTVAL FOLLOWING  */
+#line 1217 "bison_parser.y"
+                   { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
+#line 9264 "bison_parser.cpp"
     break;
 
-  case 256:
-#line 1203 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5009 "bison_parser.cpp" /* yacc.c:1646  */
+  case 256: /* frame_bound: CURRENT_ROW  */
+#line 1218 "bison_parser.y"
+              { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
+#line 9270 "bison_parser.cpp"
     break;
 
-  case 257:
-#line 1205 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5015 "bison_parser.cpp" /* yacc.c:1646  */
+  case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
+#line 1220 "bison_parser.y"
+                                                        { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
+#line 9276 "bison_parser.cpp"
     break;
 
-  case 258:
-#line 1207 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5021 "bison_parser.cpp" /* yacc.c:1646  */
+  case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
+#line 1222 "bison_parser.y"
+                                             { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
+#line 9282 "bison_parser.cpp"
     break;
 
-  case 259:
-#line 1209 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5027 "bison_parser.cpp" /* yacc.c:1646  */
+  case 259: /* datetime_field: SECOND  */
+#line 1224 "bison_parser.y"
+                        { (yyval.datetime_field) = kDatetimeSecond; }
+#line 9288 "bison_parser.cpp"
     break;
 
-  case 260:
-#line 1210 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5033 "bison_parser.cpp" /* yacc.c:1646  */
+  case 260: /* datetime_field: MINUTE  */
+#line 1225 "bison_parser.y"
+         { (yyval.datetime_field) = kDatetimeMinute; }
+#line 9294 "bison_parser.cpp"
     break;
 
-  case 261:
-#line 1211 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeHour; }
-#line 5039 "bison_parser.cpp" /* yacc.c:1646  */
+  case 261: /* datetime_field: HOUR  */
+#line 1226 "bison_parser.y"
+       { (yyval.datetime_field) = kDatetimeHour; }
+#line 9300 "bison_parser.cpp"
     break;
 
-  case 262:
-#line 1212 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeDay; }
-#line 5045 "bison_parser.cpp" /* yacc.c:1646  */
+  case 262: /* datetime_field: DAY  */
+#line 1227 "bison_parser.y"
+      { (yyval.datetime_field) = kDatetimeDay; }
+#line 9306 "bison_parser.cpp"
     break;
 
-  case 263:
-#line 1213 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5051 "bison_parser.cpp" /* yacc.c:1646  */
+  case 263: /* datetime_field: MONTH  */
+#line 1228 "bison_parser.y"
+        { (yyval.datetime_field) = kDatetimeMonth; }
+#line 9312 "bison_parser.cpp"
     break;
 
-  case 264:
-#line 1214 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeYear; }
-#line 5057 "bison_parser.cpp" /* yacc.c:1646  */
+  case 264: /* datetime_field: YEAR  */
+#line 1229 "bison_parser.y"
+       { (yyval.datetime_field) = kDatetimeYear; }
+#line 9318 "bison_parser.cpp"
     break;
 
-  case 265:
-#line 1216 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5063 "bison_parser.cpp" /* yacc.c:1646  */
+  case 265: /* datetime_field_plural: SECONDS  */
+#line 1231 "bison_parser.y"
+                                { (yyval.datetime_field) = kDatetimeSecond; }
+#line 9324 "bison_parser.cpp"
     break;
 
-  case 266:
-#line 1217 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5069 "bison_parser.cpp" /* yacc.c:1646  */
+  case 266: /* datetime_field_plural: MINUTES  */
+#line 1232 "bison_parser.y"
+          { (yyval.datetime_field) = kDatetimeMinute; }
+#line 9330 "bison_parser.cpp"
     break;
 
-  case 267:
-#line 1218 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeHour; }
-#line 5075 "bison_parser.cpp" /* yacc.c:1646  */
+  case 267: /* datetime_field_plural: HOURS  */
+#line 1233 "bison_parser.y"
+        { (yyval.datetime_field) = kDatetimeHour; }
+#line 9336 "bison_parser.cpp"
     break;
 
-  case 268:
-#line 1219 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeDay; }
-#line 5081 "bison_parser.cpp" /* yacc.c:1646  */
+  case 268: /* datetime_field_plural: DAYS  */
+#line 1234 "bison_parser.y"
+       { (yyval.datetime_field) = kDatetimeDay; }
+#line 9342 "bison_parser.cpp"
     break;
 
-  case 269:
-#line 1220 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5087 "bison_parser.cpp" /* yacc.c:1646  */
+  case 269: /* datetime_field_plural: MONTHS  */
+#line 1235 "bison_parser.y"
+         { (yyval.datetime_field) = kDatetimeMonth; }
+#line 9348 "bison_parser.cpp"
     break;
 
-  case 270:
-#line 1221 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeYear; }
-#line 5093 "bison_parser.cpp" /* yacc.c:1646  */
+  case 270: /* datetime_field_plural: YEARS  */
+#line 1236 "bison_parser.y"
+        { (yyval.datetime_field) = kDatetimeYear; }
+#line 9354 "bison_parser.cpp"
     break;
 
-  case 273:
-#line 1225 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5099 "bison_parser.cpp" /* yacc.c:1646  */
+  case 273: /* array_expr: ARRAY '[' expr_list ']'  */
+#line 1240 "bison_parser.y"
+                                     { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
+#line 9360 "bison_parser.cpp"
     break;
 
-  case 274:
-#line 1227 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival); }
-#line 5105 "bison_parser.cpp" /* yacc.c:1646  */
+  case 274: /* array_index: operand '[' int_literal ']'  */
+#line 1242 "bison_parser.y"
+                                          {
+  (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
+  delete (yyvsp[-1].expr);
+}
+#line 9369 "bison_parser.cpp"
     break;
 
-  case 275:
-#line 1229 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5111 "bison_parser.cpp" /* yacc.c:1646  */
+  case 275: /* between_expr: operand BETWEEN operand AND operand  */
+#line 1247 "bison_parser.y"
+                                                   { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
+#line 9375 "bison_parser.cpp"
     break;
 
-  case 276:
-#line 1231 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5117 "bison_parser.cpp" /* yacc.c:1646  */
+  case 276: /* column_name: IDENTIFIER  */
+#line 1249 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
+#line 9381 "bison_parser.cpp"
     break;
 
-  case 277:
-#line 1232 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5123 "bison_parser.cpp" /* yacc.c:1646  */
+  case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1250 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
+#line 9387 "bison_parser.cpp"
     break;
 
-  case 278:
-#line 1233 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeStar(); }
-#line 5129 "bison_parser.cpp" /* yacc.c:1646  */
+  case 278: /* column_name: '*'  */
+#line 1251 "bison_parser.y"
+      { (yyval.expr) = Expr::makeStar(); }
+#line 9393 "bison_parser.cpp"
     break;
 
-  case 279:
-#line 1234 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5135 "bison_parser.cpp" /* yacc.c:1646  */
+  case 279: /* column_name: IDENTIFIER '.' '*'  */
+#line 1252 "bison_parser.y"
+                     { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
+#line 9399 "bison_parser.cpp"
     break;
 
-  case 287:
-#line 1238 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5141 "bison_parser.cpp" /* yacc.c:1646  */
+  case 287: /* string_literal: STRING  */
+#line 1256 "bison_parser.y"
+                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
+#line 9405 "bison_parser.cpp"
     break;
 
-  case 288:
-#line 1240 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5147 "bison_parser.cpp" /* yacc.c:1646  */
+  case 288: /* bool_literal: TRUE  */
+#line 1258 "bison_parser.y"
+                    { (yyval.expr) = Expr::makeLiteral(true); }
+#line 9411 "bison_parser.cpp"
     break;
 
-  case 289:
-#line 1241 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5153 "bison_parser.cpp" /* yacc.c:1646  */
+  case 289: /* bool_literal: FALSE  */
+#line 1259 "bison_parser.y"
+        { (yyval.expr) = Expr::makeLiteral(false); }
+#line 9417 "bison_parser.cpp"
     break;
 
-  case 290:
-#line 1243 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5159 "bison_parser.cpp" /* yacc.c:1646  */
+  case 290: /* num_literal: FLOATVAL  */
+#line 1261 "bison_parser.y"
+                       { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
+#line 9423 "bison_parser.cpp"
     break;
 
-  case 292:
-#line 1246 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5165 "bison_parser.cpp" /* yacc.c:1646  */
+  case 292: /* int_literal: INTVAL  */
+#line 1264 "bison_parser.y"
+                     { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
+#line 9429 "bison_parser.cpp"
     break;
 
-  case 293:
-#line 1248 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5171 "bison_parser.cpp" /* yacc.c:1646  */
+  case 293: /* null_literal: NULL  */
+#line 1266 "bison_parser.y"
+                    { (yyval.expr) = Expr::makeNullLiteral(); }
+#line 9435 "bison_parser.cpp"
     break;
 
-  case 294:
-#line 1250 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 294: /* date_literal: DATE STRING  */
+#line 1268 "bison_parser.y"
+                           {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
   if (sscanf((yyvsp[0].sval), "%4d-%2d-%2d%n", &day, &month, &year, &chars_parsed) != 3 || (yyvsp[0].sval)[chars_parsed] != 0) {
@@ -5182,21 +9446,23 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5186 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9450 "bison_parser.cpp"
     break;
 
-  case 295:
-#line 1261 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5192 "bison_parser.cpp" /* yacc.c:1646  */
+  case 295: /* interval_literal: INTVAL duration_field  */
+#line 1279 "bison_parser.y"
+                                         { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
+#line 9456 "bison_parser.cpp"
     break;
 
-  case 296:
-#line 1262 "bison_parser.y" /* yacc.c:1646  */
-    {
-  int duration{0}, chars_parsed{0};
-  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf((yyvsp[-1].sval), "%d%n", &duration, &chars_parsed) != 1 || (yyvsp[-1].sval)[chars_parsed] != 0) {
+  case 296: /* interval_literal: INTERVAL STRING datetime_field  */
+#line 1280 "bison_parser.y"
+                                 {
+  long long duration{0};
+  int chars_parsed{0};
+  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character. Limiting
+  // the number of digits ensures that the duration cannot overflow.
+  if (sscanf((yyvsp[-1].sval), "%18lld%n", &duration, &chars_parsed) != 1 || (yyvsp[-1].sval)[chars_parsed] != 0) {
     free((yyvsp[-1].sval));
     yyerror(&yyloc, result, scanner, "Found incorrect interval format. Expected format: INTEGER");
     YYERROR;
@@ -5204,17 +9470,19 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5208 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9474 "bison_parser.cpp"
     break;
 
-  case 297:
-#line 1273 "bison_parser.y" /* yacc.c:1646  */
-    {
-  int duration{0}, chars_parsed{0};
+  case 297: /* interval_literal: INTERVAL STRING  */
+#line 1293 "bison_parser.y"
+                  {
+  long long duration{0};
+  int chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
   char unit_string[8];
-  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf((yyvsp[0].sval), "%d %7s%n", &duration, unit_string, &chars_parsed) != 2 || (yyvsp[0].sval)[chars_parsed] != 0) {
+  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character. Limiting
+  // the number of digits ensures that the duration cannot overflow.
+  if (sscanf((yyvsp[0].sval), "%18lld %7s%n", &duration, unit_string, &chars_parsed) != 2 || (yyvsp[0].sval)[chars_parsed] != 0) {
     free((yyvsp[0].sval));
     yyerror(&yyloc, result, scanner, "Found incorrect interval format. Expected format: INTEGER INTERVAL_QUALIIFIER");
     YYERROR;
@@ -5240,290 +9508,290 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5244 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9512 "bison_parser.cpp"
     break;
 
-  case 298:
-#line 1305 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 298: /* param_expr: '?'  */
+#line 1327 "bison_parser.y"
+                 {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5254 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9522 "bison_parser.cpp"
     break;
 
-  case 300:
-#line 1314 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
+#line 1336 "bison_parser.y"
+                                                                        {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5265 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9533 "bison_parser.cpp"
     break;
 
-  case 304:
-#line 1323 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
+#line 1345 "bison_parser.y"
+                                                                                     {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5276 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9544 "bison_parser.cpp"
     break;
 
-  case 305:
-#line 1330 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 305: /* table_ref_commalist: table_ref_atomic  */
+#line 1352 "bison_parser.y"
+                                       {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5285 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9553 "bison_parser.cpp"
     break;
 
-  case 306:
-#line 1334 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
+#line 1356 "bison_parser.y"
+                                           {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5294 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9562 "bison_parser.cpp"
     break;
 
-  case 307:
-#line 1339 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 307: /* table_ref_name: table_name opt_table_alias  */
+#line 1361 "bison_parser.y"
+                                            {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
   tbl->name = (yyvsp[-1].table_name).name;
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5306 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9574 "bison_parser.cpp"
     break;
 
-  case 308:
-#line 1347 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 308: /* table_ref_name_no_alias: table_name  */
+#line 1369 "bison_parser.y"
+                                     {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5316 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9584 "bison_parser.cpp"
     break;
 
-  case 309:
-#line 1353 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 309: /* table_name: IDENTIFIER  */
+#line 1375 "bison_parser.y"
+                        {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5325 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9593 "bison_parser.cpp"
     break;
 
-  case 310:
-#line 1357 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1379 "bison_parser.y"
+                            {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5334 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9602 "bison_parser.cpp"
     break;
 
-  case 311:
-#line 1362 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.sval) = (yyvsp[0].sval); }
-#line 5340 "bison_parser.cpp" /* yacc.c:1646  */
+  case 311: /* opt_index_name: IDENTIFIER  */
+#line 1384 "bison_parser.y"
+                            { (yyval.sval) = (yyvsp[0].sval); }
+#line 9608 "bison_parser.cpp"
     break;
 
-  case 312:
-#line 1363 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.sval) = nullptr; }
-#line 5346 "bison_parser.cpp" /* yacc.c:1646  */
+  case 312: /* opt_index_name: %empty  */
+#line 1385 "bison_parser.y"
+              { (yyval.sval) = nullptr; }
+#line 9614 "bison_parser.cpp"
     break;
 
-  case 314:
-#line 1365 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5352 "bison_parser.cpp" /* yacc.c:1646  */
+  case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
+#line 1387 "bison_parser.y"
+                                                            { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
+#line 9620 "bison_parser.cpp"
     break;
 
-  case 316:
-#line 1367 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = nullptr; }
-#line 5358 "bison_parser.cpp" /* yacc.c:1646  */
+  case 316: /* opt_table_alias: %empty  */
+#line 1389 "bison_parser.y"
+                                            { (yyval.alias_t) = nullptr; }
+#line 9626 "bison_parser.cpp"
     break;
 
-  case 317:
-#line 1369 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5364 "bison_parser.cpp" /* yacc.c:1646  */
+  case 317: /* alias: AS IDENTIFIER  */
+#line 1391 "bison_parser.y"
+                      { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
+#line 9632 "bison_parser.cpp"
     break;
 
-  case 318:
-#line 1370 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5370 "bison_parser.cpp" /* yacc.c:1646  */
+  case 318: /* alias: IDENTIFIER  */
+#line 1392 "bison_parser.y"
+             { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
+#line 9638 "bison_parser.cpp"
     break;
 
-  case 320:
-#line 1372 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = nullptr; }
-#line 5376 "bison_parser.cpp" /* yacc.c:1646  */
+  case 320: /* opt_alias: %empty  */
+#line 1394 "bison_parser.y"
+                                { (yyval.alias_t) = nullptr; }
+#line 9644 "bison_parser.cpp"
     break;
 
-  case 321:
-#line 1378 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5382 "bison_parser.cpp" /* yacc.c:1646  */
+  case 321: /* opt_locking_clause: opt_locking_clause_list  */
+#line 1400 "bison_parser.y"
+                                             { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
+#line 9650 "bison_parser.cpp"
     break;
 
-  case 322:
-#line 1379 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.locking_clause_vec) = nullptr; }
-#line 5388 "bison_parser.cpp" /* yacc.c:1646  */
+  case 322: /* opt_locking_clause: %empty  */
+#line 1401 "bison_parser.y"
+              { (yyval.locking_clause_vec) = nullptr; }
+#line 9656 "bison_parser.cpp"
     break;
 
-  case 323:
-#line 1381 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 323: /* opt_locking_clause_list: locking_clause  */
+#line 1403 "bison_parser.y"
+                                         {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5397 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9665 "bison_parser.cpp"
     break;
 
-  case 324:
-#line 1385 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
+#line 1407 "bison_parser.y"
+                                         {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5406 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9674 "bison_parser.cpp"
     break;
 
-  case 325:
-#line 1390 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
+#line 1412 "bison_parser.y"
+                                                       {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5417 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9685 "bison_parser.cpp"
     break;
 
-  case 326:
-#line 1396 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
+#line 1418 "bison_parser.y"
+                                                           {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5428 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9696 "bison_parser.cpp"
     break;
 
-  case 327:
-#line 1403 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5434 "bison_parser.cpp" /* yacc.c:1646  */
+  case 327: /* row_lock_mode: UPDATE  */
+#line 1425 "bison_parser.y"
+                       { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
+#line 9702 "bison_parser.cpp"
     break;
 
-  case 328:
-#line 1404 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5440 "bison_parser.cpp" /* yacc.c:1646  */
+  case 328: /* row_lock_mode: NO KEY UPDATE  */
+#line 1426 "bison_parser.y"
+                { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
+#line 9708 "bison_parser.cpp"
     break;
 
-  case 329:
-#line 1405 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5446 "bison_parser.cpp" /* yacc.c:1646  */
+  case 329: /* row_lock_mode: SHARE  */
+#line 1427 "bison_parser.y"
+        { (yyval.lock_mode_t) = RowLockMode::ForShare; }
+#line 9714 "bison_parser.cpp"
     break;
 
-  case 330:
-#line 1406 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5452 "bison_parser.cpp" /* yacc.c:1646  */
+  case 330: /* row_lock_mode: KEY SHARE  */
+#line 1428 "bison_parser.y"
+            { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
+#line 9720 "bison_parser.cpp"
     break;
 
-  case 331:
-#line 1408 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5458 "bison_parser.cpp" /* yacc.c:1646  */
+  case 331: /* opt_row_lock_policy: SKIP LOCKED  */
+#line 1430 "bison_parser.y"
+                                  { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
+#line 9726 "bison_parser.cpp"
     break;
 
-  case 332:
-#line 1409 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5464 "bison_parser.cpp" /* yacc.c:1646  */
+  case 332: /* opt_row_lock_policy: NOWAIT  */
+#line 1431 "bison_parser.y"
+         { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
+#line 9732 "bison_parser.cpp"
     break;
 
-  case 333:
-#line 1410 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5470 "bison_parser.cpp" /* yacc.c:1646  */
+  case 333: /* opt_row_lock_policy: %empty  */
+#line 1432 "bison_parser.y"
+              { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
+#line 9738 "bison_parser.cpp"
     break;
 
-  case 335:
-#line 1416 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.with_description_vec) = nullptr; }
-#line 5476 "bison_parser.cpp" /* yacc.c:1646  */
+  case 335: /* opt_with_clause: %empty  */
+#line 1438 "bison_parser.y"
+                                            { (yyval.with_description_vec) = nullptr; }
+#line 9744 "bison_parser.cpp"
     break;
 
-  case 336:
-#line 1418 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5482 "bison_parser.cpp" /* yacc.c:1646  */
+  case 336: /* with_clause: WITH with_description_list  */
+#line 1440 "bison_parser.y"
+                                         { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
+#line 9750 "bison_parser.cpp"
     break;
 
-  case 337:
-#line 1420 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 337: /* with_description_list: with_description  */
+#line 1442 "bison_parser.y"
+                                         {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5491 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9759 "bison_parser.cpp"
     break;
 
-  case 338:
-#line 1424 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 338: /* with_description_list: with_description_list ',' with_description  */
+#line 1446 "bison_parser.y"
+                                             {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5500 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9768 "bison_parser.cpp"
     break;
 
-  case 339:
-#line 1429 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 339: /* with_description: IDENTIFIER AS select_with_paren  */
+#line 1451 "bison_parser.y"
+                                                   {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5510 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9778 "bison_parser.cpp"
     break;
 
-  case 340:
-#line 1439 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
+#line 1461 "bison_parser.y"
+                                                                     {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
   (yyval.table)->join->type = kJoinNatural;
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5522 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9790 "bison_parser.cpp"
     break;
 
-  case 341:
-#line 1446 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
+#line 1468 "bison_parser.y"
+                                                                         {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
   (yyval.table)->join->type = (JoinType)(yyvsp[-4].join_type);
@@ -5531,12 +9799,12 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5535 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9803 "bison_parser.cpp"
     break;
 
-  case 342:
-#line 1454 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
+#line 1476 "bison_parser.y"
+                                                                                     {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
   (yyval.table)->join->type = (yyvsp[-6].join_type);
@@ -5544,89 +9812,90 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5548 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9816 "bison_parser.cpp"
     break;
 
-  case 343:
-#line 1463 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinInner; }
-#line 5554 "bison_parser.cpp" /* yacc.c:1646  */
+  case 343: /* opt_join_type: INNER  */
+#line 1485 "bison_parser.y"
+                      { (yyval.join_type) = kJoinInner; }
+#line 9822 "bison_parser.cpp"
     break;
 
-  case 344:
-#line 1464 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinLeft; }
-#line 5560 "bison_parser.cpp" /* yacc.c:1646  */
+  case 344: /* opt_join_type: LEFT OUTER  */
+#line 1486 "bison_parser.y"
+             { (yyval.join_type) = kJoinLeft; }
+#line 9828 "bison_parser.cpp"
     break;
 
-  case 345:
-#line 1465 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinLeft; }
-#line 5566 "bison_parser.cpp" /* yacc.c:1646  */
+  case 345: /* opt_join_type: LEFT  */
+#line 1487 "bison_parser.y"
+       { (yyval.join_type) = kJoinLeft; }
+#line 9834 "bison_parser.cpp"
     break;
 
-  case 346:
-#line 1466 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinRight; }
-#line 5572 "bison_parser.cpp" /* yacc.c:1646  */
+  case 346: /* opt_join_type: RIGHT OUTER  */
+#line 1488 "bison_parser.y"
+              { (yyval.join_type) = kJoinRight; }
+#line 9840 "bison_parser.cpp"
     break;
 
-  case 347:
-#line 1467 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinRight; }
-#line 5578 "bison_parser.cpp" /* yacc.c:1646  */
+  case 347: /* opt_join_type: RIGHT  */
+#line 1489 "bison_parser.y"
+        { (yyval.join_type) = kJoinRight; }
+#line 9846 "bison_parser.cpp"
     break;
 
-  case 348:
-#line 1468 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinFull; }
-#line 5584 "bison_parser.cpp" /* yacc.c:1646  */
+  case 348: /* opt_join_type: FULL OUTER  */
+#line 1490 "bison_parser.y"
+             { (yyval.join_type) = kJoinFull; }
+#line 9852 "bison_parser.cpp"
     break;
 
-  case 349:
-#line 1469 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinFull; }
-#line 5590 "bison_parser.cpp" /* yacc.c:1646  */
+  case 349: /* opt_join_type: OUTER  */
+#line 1491 "bison_parser.y"
+        { (yyval.join_type) = kJoinFull; }
+#line 9858 "bison_parser.cpp"
     break;
 
-  case 350:
-#line 1470 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinFull; }
-#line 5596 "bison_parser.cpp" /* yacc.c:1646  */
+  case 350: /* opt_join_type: FULL  */
+#line 1492 "bison_parser.y"
+       { (yyval.join_type) = kJoinFull; }
+#line 9864 "bison_parser.cpp"
     break;
 
-  case 351:
-#line 1471 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinCross; }
-#line 5602 "bison_parser.cpp" /* yacc.c:1646  */
+  case 351: /* opt_join_type: CROSS  */
+#line 1493 "bison_parser.y"
+        { (yyval.join_type) = kJoinCross; }
+#line 9870 "bison_parser.cpp"
     break;
 
-  case 352:
-#line 1472 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinInner; }
-#line 5608 "bison_parser.cpp" /* yacc.c:1646  */
+  case 352: /* opt_join_type: %empty  */
+#line 1494 "bison_parser.y"
+                       { (yyval.join_type) = kJoinInner; }
+#line 9876 "bison_parser.cpp"
     break;
 
-  case 356:
-#line 1483 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 356: /* ident_commalist: IDENTIFIER  */
+#line 1505 "bison_parser.y"
+                             {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5617 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9885 "bison_parser.cpp"
     break;
 
-  case 357:
-#line 1487 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
+#line 1509 "bison_parser.y"
+                                 {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5626 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9894 "bison_parser.cpp"
     break;
 
 
-#line 5630 "bison_parser.cpp" /* yacc.c:1646  */
+#line 9898 "bison_parser.cpp"
+
       default: break;
     }
   /* User semantic actions sometimes alter yychar, and that requires
@@ -5640,11 +9909,10 @@ yyreduce:
      case of YYERROR or YYBACKUP, subsequent parser actions might lead
      to an incorrect destructor call or verbose syntax error message
      before the lookahead is translated.  */
-  YY_SYMBOL_PRINT ("-> $$ =", yyr1[yyn], &yyval, &yyloc);
+  YY_SYMBOL_PRINT ("-> $$ =", YY_CAST (yysymbol_kind_t, yyr1[yyn]), &yyval, &yyloc);
 
   YYPOPSTACK (yylen);
   yylen = 0;
-  YY_STACK_PRINT (yyss, yyssp);
 
   *++yyvsp = yyval;
   *++yylsp = yyloc;
@@ -5652,14 +9920,13 @@ yyreduce:
   /* Now 'shift' the result of the reduction.  Determine what state
      that goes to, based on the state we popped back to and the rule
      number reduced by.  */
-
-  yyn = yyr1[yyn];
-
-  yystate = yypgoto[yyn - YYNTOKENS] + *yyssp;
-  if (0 <= yystate && yystate <= YYLAST && yycheck[yystate] == *yyssp)
-    yystate = yytable[yystate];
-  else
-    yystate = yydefgoto[yyn - YYNTOKENS];
+  {
+    const int yylhs = yyr1[yyn] - YYNTOKENS;
+    const int yyi = yypgoto[yylhs] + *yyssp;
+    yystate = (0 <= yyi && yyi <= YYLAST && yycheck[yyi] == *yyssp
+               ? yytable[yyi]
+               : yydefgoto[yylhs]);
+  }
 
   goto yynewstate;
 
@@ -5670,66 +9937,61 @@ yyreduce:
 yyerrlab:
   /* Make sure we have latest lookahead translation.  See comments at
      user semantic actions for why this is necessary.  */
-  yytoken = yychar == YYEMPTY ? YYEMPTY : YYTRANSLATE (yychar);
-
+  yytoken = yychar == SQL_HSQL_EMPTY ? YYSYMBOL_YYEMPTY : YYTRANSLATE (yychar);
   /* If not already recovering from an error, report this error.  */
   if (!yyerrstatus)
     {
       ++yynerrs;
-#if ! YYERROR_VERBOSE
-      yyerror (&yylloc, result, scanner, YY_("syntax error"));
-#else
-# define YYSYNTAX_ERROR yysyntax_error (&yymsg_alloc, &yymsg, \
-                                        yyssp, yytoken)
       {
+        yypcontext_t yyctx
+          = {yyssp, yytoken, &yylloc};
         char const *yymsgp = YY_("syntax error");
         int yysyntax_error_status;
-        yysyntax_error_status = YYSYNTAX_ERROR;
+        yysyntax_error_status = yysyntax_error (&yymsg_alloc, &yymsg, &yyctx);
         if (yysyntax_error_status == 0)
           yymsgp = yymsg;
-        else if (yysyntax_error_status == 1)
+        else if (yysyntax_error_status == -1)
           {
             if (yymsg != yymsgbuf)
               YYSTACK_FREE (yymsg);
-            yymsg = (char *) YYSTACK_ALLOC (yymsg_alloc);
-            if (!yymsg)
+            yymsg = YY_CAST (char *,
+                             YYSTACK_ALLOC (YY_CAST (YYSIZE_T, yymsg_alloc)));
+            if (yymsg)
               {
-                yymsg = yymsgbuf;
-                yymsg_alloc = sizeof yymsgbuf;
-                yysyntax_error_status = 2;
+                yysyntax_error_status
+                  = yysyntax_error (&yymsg_alloc, &yymsg, &yyctx);
+                yymsgp = yymsg;
               }
             else
               {
-                yysyntax_error_status = YYSYNTAX_ERROR;
-                yymsgp = yymsg;
+                yymsg = yymsgbuf;
+                yymsg_alloc = sizeof yymsgbuf;
+                yysyntax_error_status = YYENOMEM;
               }
           }
         yyerror (&yylloc, result, scanner, yymsgp);
-        if (yysyntax_error_status == 2)
-          goto yyexhaustedlab;
+        if (yysyntax_error_status == YYENOMEM)
+          YYNOMEM;
       }
-# undef YYSYNTAX_ERROR
-#endif
     }
 
   yyerror_range[1] = yylloc;
-
   if (yyerrstatus == 3)
     {
       /* If just tried and failed to reuse lookahead token after an
          error, discard it.  */
 
-      if (yychar <= YYEOF)
+      if (yychar <= SQL_YYEOF)
         {
           /* Return failure if at end of input.  */
-          if (yychar == YYEOF)
+          if (yychar == SQL_YYEOF)
             YYABORT;
         }
       else
         {
           yydestruct ("Error: discarding",
                       yytoken, &yylval, &yylloc, result, scanner);
-          yychar = YYEMPTY;
+          yychar = SQL_HSQL_EMPTY;
         }
     }
 
@@ -5742,14 +10004,12 @@ yyerrlab:
 | yyerrorlab -- error raised explicitly by YYERROR.  |
 `---------------------------------------------------*/
 yyerrorlab:
+  /* Pacify compilers when the user code never invokes YYERROR and the
+     label yyerrorlab therefore never appears in user code.  */
+  if (0)
+    YYERROR;
+  ++yynerrs;
 
-  /* Pacify compilers like GCC when the user code never invokes
-     YYERROR and the label yyerrorlab therefore never appears in user
-     code.  */
-  if (/*CONSTCOND*/ 0)
-     goto yyerrorlab;
-
-  yyerror_range[1] = yylsp[1-yylen];
   /* Do not reclaim the symbols of the rule whose action triggered
      this YYERROR.  */
   YYPOPSTACK (yylen);
@@ -5765,13 +10025,14 @@ yyerrorlab:
 yyerrlab1:
   yyerrstatus = 3;      /* Each real token shifted decrements this.  */
 
+  /* Pop stack until we find a state that shifts the error token.  */
   for (;;)
     {
       yyn = yypact[yystate];
       if (!yypact_value_is_default (yyn))
         {
-          yyn += YYTERROR;
-          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYTERROR)
+          yyn += YYSYMBOL_YYerror;
+          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYSYMBOL_YYerror)
             {
               yyn = yytable[yyn];
               if (0 < yyn)
@@ -5785,7 +10046,7 @@ yyerrlab1:
 
       yyerror_range[1] = *yylsp;
       yydestruct ("Error: popping",
-                  yystos[yystate], yyvsp, yylsp, result, scanner);
+                  YY_ACCESSING_SYMBOL (yystate), yyvsp, yylsp, result, scanner);
       YYPOPSTACK (1);
       yystate = *yyssp;
       YY_STACK_PRINT (yyss, yyssp);
@@ -5796,13 +10057,11 @@ yyerrlab1:
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 
   yyerror_range[2] = yylloc;
-  /* Using YYLLOC is tempting, but would change the location of
-     the lookahead.  YYLOC is available though.  */
-  YYLLOC_DEFAULT (yyloc, yyerror_range, 2);
-  *++yylsp = yyloc;
+  ++yylsp;
+  YYLLOC_DEFAULT (*yylsp, yyerror_range, 2);
 
   /* Shift the error token.  */
-  YY_SYMBOL_PRINT ("Shifting", yystos[yyn], yyvsp, yylsp);
+  YY_SYMBOL_PRINT ("Shifting", YY_ACCESSING_SYMBOL (yyn), yyvsp, yylsp);
 
   yystate = yyn;
   goto yynewstate;
@@ -5813,27 +10072,31 @@ yyerrlab1:
 `-------------------------------------*/
 yyacceptlab:
   yyresult = 0;
-  goto yyreturn;
+  goto yyreturnlab;
+
 
 /*-----------------------------------.
 | yyabortlab -- YYABORT comes here.  |
 `-----------------------------------*/
 yyabortlab:
   yyresult = 1;
-  goto yyreturn;
+  goto yyreturnlab;
+
 
-#if !defined yyoverflow || YYERROR_VERBOSE
-/*-------------------------------------------------.
-| yyexhaustedlab -- memory exhaustion comes here.  |
-`-------------------------------------------------*/
+/*-----------------------------------------------------------.
+| yyexhaustedlab -- YYNOMEM (memory exhaustion) comes here.  |
+`-----------------------------------------------------------*/
 yyexhaustedlab:
   yyerror (&yylloc, result, scanner, YY_("memory exhausted"));
   yyresult = 2;
-  /* Fall through.  */
-#endif
+  goto yyreturnlab;
+
 
-yyreturn:
-  if (yychar != YYEMPTY)
+/*----------------------------------------------------------.
+| yyreturnlab -- parsing is finished, clean up and return.  |
+`----------------------------------------------------------*/
+yyreturnlab:
+  if (yychar != SQL_HSQL_EMPTY)
     {
       /* Make sure we have latest lookahead translation.  See comments at
          user semantic actions for why this is necessary.  */
@@ -5848,20 +10111,19 @@ yyreturn:
   while (yyssp != yyss)
     {
       yydestruct ("Cleanup: popping",
-                  yystos[*yyssp], yyvsp, yylsp, result, scanner);
+                  YY_ACCESSING_SYMBOL (+*yyssp), yyvsp, yylsp, result, scanner);
       YYPOPSTACK (1);
     }
 #ifndef yyoverflow
   if (yyss != yyssa)
     YYSTACK_FREE (yyss);
 #endif
-#if YYERROR_VERBOSE
   if (yymsg != yymsgbuf)
     YYSTACK_FREE (yymsg);
-#endif
   return yyresult;
 }
-#line 1493 "bison_parser.y" /* yacc.c:1906  */
+
+#line 1515 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index b0a2e97..3f2cdb4 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -1,8 +1,9 @@
-/* A Bison parser, made by GNU Bison 3.0.4.  */
+/* A Bison parser, made by GNU Bison 3.8.2.  */
 
 /* Bison interface for Yacc-like parsers in C
 
-   Copyright (C) 1984, 1989-1990, 2000-2015 Free Software Foundation, Inc.
+   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
+   Inc.
 
    This program is free software: you can redistribute it and/or modify
    it under the terms of the GNU General Public License as published by
@@ -15,7 +16,7 @@
    GNU General Public License for more details.
 
    You should have received a copy of the GNU General Public License
-   along with this program.  If not, see <http://www.gnu.org/licenses/>.  */
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */
 
 /* As a special exception, you may create a larger work that contains
    part or all of the Bison parser skeleton and distribute that work
@@ -30,6 +31,10 @@
    This special exception was added by the Free Software Foundation in
    version 2.2 of Bison.  */
 
+/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+   especially those whose name start with YY_ or yy_.  They are
+   private implementation details that can be changed or removed.  */
+
 #ifndef YY_HSQL_BISON_PARSER_H_INCLUDED
 # define YY_HSQL_BISON_PARSER_H_INCLUDED
 /* Debug traces.  */
@@ -48,7 +53,7 @@
 extern int hsql_debug;
 #endif
 /* "%code requires" blocks.  */
-#line 39 "bison_parser.y" /* yacc.c:1909  */
+#line 39 "bison_parser.y"
 
 // %code requires block
 
@@ -71,201 +76,206 @@ extern int hsql_debug;
     }                                         \
   }
 
-#line 75 "bison_parser.h" /* yacc.c:1909  */
+#line 80 "bison_parser.h"
 
-/* Token type.  */
+/* Token kinds.  */
 #ifndef HSQL_TOKENTYPE
 # define HSQL_TOKENTYPE
   enum hsql_tokentype
   {
-    SQL_IDENTIFIER = 258,
-    SQL_STRING = 259,
-    SQL_FLOATVAL = 260,
-    SQL_INTVAL = 261,
-    SQL_DEALLOCATE = 262,
-    SQL_PARAMETERS = 263,
-    SQL_INTERSECT = 264,
-    SQL_TEMPORARY = 265,
-    SQL_TIMESTAMP = 266,
-    SQL_DISTINCT = 267,
-    SQL_NVARCHAR = 268,
-    SQL_RESTRICT = 269,
-    SQL_TRUNCATE = 270,
-    SQL_ANALYZE = 271,
-    SQL_BETWEEN = 272,
-    SQL_CASCADE = 273,
-    SQL_COLUMNS = 274,
-    SQL_CONTROL = 275,
-    SQL_DEFAULT = 276,
-    SQL_EXECUTE = 277,
-    SQL_EXPLAIN = 278,
-    SQL_ENCODING = 279,
-    SQL_INTEGER = 280,
-    SQL_NATURAL = 281,
-    SQL_PREPARE = 282,
-    SQL_SCHEMAS = 283,
-    SQL_CHARACTER_VARYING = 284,
-    SQL_REAL = 285,
-    SQL_DECIMAL = 286,
-    SQL_SMALLINT = 287,
-    SQL_BIGINT = 288,
-    SQL_SPATIAL = 289,
-    SQL_VARCHAR = 290,
-    SQL_VIRTUAL = 291,
-    SQL_DESCRIBE = 292,
-    SQL_BEFORE = 293,
-    SQL_COLUMN = 294,
-    SQL_CREATE = 295,
-    SQL_DELETE = 296,
-    SQL_DIRECT = 297,
-    SQL_DOUBLE = 298,
-    SQL_ESCAPE = 299,
-    SQL_EXCEPT = 300,
-    SQL_EXISTS = 301,
-    SQL_EXTRACT = 302,
-    SQL_CAST = 303,
-    SQL_FORMAT = 304,
-    SQL_GLOBAL = 305,
-    SQL_HAVING = 306,
-    SQL_IMPORT = 307,
-    SQL_INSERT = 308,
-    SQL_ISNULL = 309,
-    SQL_OFFSET = 310,
-    SQL_RENAME = 311,
-    SQL_SCHEMA = 312,
-    SQL_SELECT = 313,
-    SQL_SORTED = 314,
-    SQL_TABLES = 315,
-    SQL_UNLOAD = 316,
-    SQL_UPDATE = 317,
-    SQL_VALUES = 318,
-    SQL_AFTER = 319,
-    SQL_ALTER = 320,
-    SQL_CROSS = 321,
-    SQL_DELTA = 322,
-    SQL_FLOAT = 323,
-    SQL_GROUP = 324,
-    SQL_INDEX = 325,
-    SQL_INNER = 326,
-    SQL_LIMIT = 327,
-    SQL_LOCAL = 328,
-    SQL_MERGE = 329,
-    SQL_MINUS = 330,
-    SQL_ORDER = 331,
-    SQL_OVER = 332,
-    SQL_OUTER = 333,
-    SQL_RIGHT = 334,
-    SQL_TABLE = 335,
-    SQL_UNION = 336,
-    SQL_USING = 337,
-    SQL_WHERE = 338,
-    SQL_CALL = 339,
-    SQL_CASE = 340,
-    SQL_CHAR = 341,
-    SQL_COPY = 342,
-    SQL_DATE = 343,
-    SQL_DATETIME = 344,
-    SQL_DESC = 345,
-    SQL_DROP = 346,
-    SQL_ELSE = 347,
-    SQL_FILE = 348,
-    SQL_FROM = 349,
-    SQL_FULL = 350,
-    SQL_HASH = 351,
-    SQL_HINT = 352,
-    SQL_INTO = 353,
-    SQL_JOIN = 354,
-    SQL_LEFT = 355,
-    SQL_LIKE = 356,
-    SQL_LOAD = 357,
-    SQL_LONG = 358,
-    SQL_NULL = 359,
-    SQL_PARTITION = 360,
-    SQL_PLAN = 361,
-    SQL_SHOW = 362,
-    SQL_TEXT = 363,
-    SQL_THEN = 364,
-    SQL_TIME = 365,
-    SQL_VIEW = 366,
-    SQL_WHEN = 367,
-    SQL_WITH = 368,
-    SQL_ADD = 369,
-    SQL_ALL = 370,
-    SQL_AND = 371,
-    SQL_ASC = 372,
-    SQL_END = 373,
-    SQL_FOR = 374,
-    SQL_INT = 375,
-    SQL_NOT = 376,
-    SQL_OFF = 377,
-    SQL_SET = 378,
-    SQL_TOP = 379,
-    SQL_AS = 380,
-    SQL_BY = 381,
-    SQL_IF = 382,
-    SQL_IN = 383,
-    SQL_IS = 384,
-    SQL_OF = 385,
-    SQL_ON = 386,
-    SQL_OR = 387,
-    SQL_TO = 388,
-    SQL_NO = 389,
-    SQL_ARRAY = 390,
-    SQL_CONCAT = 391,
-    SQL_ILIKE = 392,
-    SQL_SECOND = 393,
-    SQL_MINUTE = 394,
-    SQL_HOUR = 395,
-    SQL_DAY = 396,
-    SQL_MONTH = 397,
-    SQL_YEAR = 398,
-    SQL_SECONDS = 399,
-    SQL_MINUTES = 400,
-    SQL_HOURS = 401,
-    SQL_DAYS = 402,
-    SQL_MONTHS = 403,
-    SQL_YEARS = 404,
-    SQL_INTERVAL = 405,
-    SQL_TRUE = 406,
-    SQL_FALSE = 407,
-    SQL_BOOLEAN = 408,
-    SQL_TRANSACTION = 409,
-    SQL_BEGIN = 410,
-    SQL_COMMIT = 411,
-    SQL_ROLLBACK = 412,
-    SQL_NOWAIT = 413,
-    SQL_SKIP = 414,
-    SQL_LOCKED = 415,
-    SQL_SHARE = 416,
-    SQL_RANGE = 417,
-    SQL_ROWS = 418,
-    SQL_GROUPS = 419,
-    SQL_UNBOUNDED = 420,
-    SQL_FOLLOWING = 421,
-    SQL_PRECEDING = 422,
-    SQL_CURRENT_ROW = 423,
-    SQL_UNIQUE = 424,
-    SQL_PRIMARY = 425,
-    SQL_FOREIGN = 426,
-    SQL_KEY = 427,
-    SQL_REFERENCES = 428,
-    SQL_EQUALS = 429,
-    SQL_NOTEQUALS = 430,
-    SQL_LESS = 431,
-    SQL_GREATER = 432,
-    SQL_LESSEQ = 433,
-    SQL_GREATEREQ = 434,
-    SQL_NOTNULL = 435,
-    SQL_UMINUS = 436
+    SQL_HSQL_EMPTY = -2,
+    SQL_YYEOF = 0,                 /* "end of file"  */
+    SQL_HSQL_error = 256,          /* error  */
+    SQL_HSQL_UNDEF = 257,          /* "invalid token"  */
+    SQL_IDENTIFIER = 258,          /* IDENTIFIER  */
+    SQL_STRING = 259,              /* STRING  */
+    SQL_FLOATVAL = 260,            /* FLOATVAL  */
+    SQL_INTVAL = 261,              /* INTVAL  */
+    SQL_DEALLOCATE = 262,          /* DEALLOCATE  */
+    SQL_PARAMETERS = 263,          /* PARAMETERS  */
+    SQL_INTERSECT = 264,           /* INTERSECT  */
+    SQL_TEMPORARY = 265,           /* TEMPORARY  */
+    SQL_TIMESTAMP = 266,           /* TIMESTAMP  */
+    SQL_DISTINCT = 267,            /* DISTINCT  */
+    SQL_NVARCHAR = 268,            /* NVARCHAR  */
+    SQL_RESTRICT = 269,            /* RESTRICT  */
+    SQL_TRUNCATE = 270,            /* TRUNCATE  */
+    SQL_ANALYZE = 271,             /* ANALYZE  */
+    SQL_BETWEEN = 272,             /* BETWEEN  */
+    SQL_CASCADE = 273,             /* CASCADE  */
+    SQL_COLUMNS = 274,             /* COLUMNS  */
+    SQL_CONTROL = 275,             /* CONTROL  */
+    SQL_DEFAULT = 276,             /* DEFAULT  */
+    SQL_EXECUTE = 277,             /* EXECUTE  */
+    SQL_EXPLAIN = 278,             /* EXPLAIN  */
+    SQL_ENCODING = 279,            /* ENCODING  */
+    SQL_INTEGER = 280,             /* INTEGER  */
+    SQL_NATURAL = 281,             /* NATURAL  */
+    SQL_PREPARE = 282,             /* PREPARE  */
+    SQL_SCHEMAS = 283,             /* SCHEMAS  */
+    SQL_CHARACTER_VARYING = 284,   /* CHARACTER_VARYING  */
+    SQL_REAL = 285,                /* REAL  */
+    SQL_DECIMAL = 286,             /* DECIMAL  */
+    SQL_SMALLINT = 287,            /* SMALLINT  */
+    SQL_BIGINT = 288,              /* BIGINT  */
+    SQL_SPATIAL = 289,             /* SPATIAL  */
+    SQL_VARCHAR = 290,             /* VARCHAR  */
+    SQL_VIRTUAL = 291,             /* VIRTUAL  */
+    SQL_DESCRIBE = 292,            /* DESCRIBE  */
+    SQL_BEFORE = 293,              /* BEFORE  */
+    SQL_COLUMN = 294,              /* COLUMN  */
+    SQL_CREATE = 295,              /* CREATE  */
+    SQL_DELETE = 296,              /* DELETE  */
+    SQL_DIRECT = 297,              /* DIRECT  */
+    SQL_DOUBLE = 298,              /* DOUBLE  */
+    SQL_ESCAPE = 299,              /* ESCAPE  */
+    SQL_EXCEPT = 300,              /* EXCEPT  */
+    SQL_EXISTS = 301,              /* EXISTS  */
+    SQL_EXTRACT = 302,             /* EXTRACT  */
+    SQL_CAST = 303,                /* CAST  */
+    SQL_FORMAT = 304,              /* FORMAT  */
+    SQL_GLOBAL = 305,              /* GLOBAL  */
+    SQL_HAVING = 306,              /* HAVING  */
+    SQL_IMPORT = 307,              /* IMPORT  */
+    SQL_INSERT = 308,              /* INSERT  */
+    SQL_ISNULL = 309,              /* ISNULL  */
+    SQL_OFFSET = 310,              /* OFFSET  */
+    SQL_RENAME = 311,              /* RENAME  */
+    SQL_SCHEMA = 312,              /* SCHEMA  */
+    SQL_SELECT = 313,              /* SELECT  */
+    SQL_SORTED = 314,              /* SORTED  */
+    SQL_TABLES = 315,              /* TABLES  */
+    SQL_UNLOAD = 316,              /* UNLOAD  */
+    SQL_UPDATE = 317,              /* UPDATE  */
+    SQL_VALUES = 318,              /* VALUES  */
+    SQL_AFTER = 319,               /* AFTER  */
+    SQL_ALTER = 320,               /* ALTER  */
+    SQL_CROSS = 321,               /* CROSS  */
+    SQL_DELTA = 322,               /* DELTA  */
+    SQL_FLOAT = 323,               /* FLOAT  */
+    SQL_GROUP = 324,               /* GROUP  */
+    SQL_INDEX = 325,               /* INDEX  */
+    SQL_INNER = 326,               /* INNER  */
+    SQL_LIMIT = 327,               /* LIMIT  */
+    SQL_LOCAL = 328,               /* LOCAL  */
+    SQL_MERGE = 329,               /* MERGE  */
+    SQL_MINUS = 330,               /* MINUS  */
+    SQL_ORDER = 331,               /* ORDER  */
+    SQL_OVER = 332,                /* OVER  */
+    SQL_OUTER = 333,               /* OUTER  */
+    SQL_RIGHT = 334,               /* RIGHT  */
+    SQL_TABLE = 335,               /* TABLE  */
+    SQL_UNION = 336,               /* UNION  */
+    SQL_USING = 337,               /* USING  */
+    SQL_WHERE = 338,               /* WHERE  */
+    SQL_CALL = 339,                /* CALL  */
+    SQL_CASE = 340,                /* CASE  */
+    SQL_CHAR = 341,                /* CHAR  */
+    SQL_COPY = 342,                /* COPY  */
+    SQL_DATE = 343,                /* DATE  */
+    SQL_DATETIME = 344,            /* DATETIME  */
+    SQL_DESC = 345,                /* DESC  */
+    SQL_DROP = 346,                /* DROP  */
+    SQL_ELSE = 347,                /* ELSE  */
+    SQL_FILE = 348,                /* FILE  */
+    SQL_FROM = 349,                /* FROM  */
+    SQL_FULL = 350,                /* FULL  */
+    SQL_HASH = 351,                /* HASH  */
+    SQL_HINT = 352,                /* HINT  */
+    SQL_INTO = 353,                /* INTO  */
+    SQL_JOIN = 354,                /* JOIN  */
+    SQL_LEFT = 355,                /* LEFT  */
+    SQL_LIKE = 356,                /* LIKE  */
+    SQL_LOAD = 357,                /* LOAD  */
+    SQL_LONG = 358,                /* LONG  */
+    SQL_NULL = 359,                /* NULL  */
+    SQL_PARTITION = 360,           /* PARTITION  */
+    SQL_PLAN = 361,                /* PLAN  */
+    SQL_SHOW = 362,                /* SHOW  */
+    SQL_TEXT = 363,                /* TEXT  */
+    SQL_THEN = 364,                /* THEN  */
+    SQL_TIME = 365,                /* TIME  */
+    SQL_VIEW = 366,                /* VIEW  */
+    SQL_WHEN = 367,                /* WHEN  */
+    SQL_WITH = 368,                /* WITH  */
+    SQL_ADD = 369,                 /* ADD  */
+    SQL_ALL = 370,                 /* ALL  */
+    SQL_AND = 371,                 /* AND  */
+    SQL_ASC = 372,                 /* ASC  */
+    SQL_END = 373,                 /* END  */
+    SQL_FOR = 374,                 /* FOR  */
+    SQL_INT = 375,                 /* INT  */
+    SQL_NOT = 376,                 /* NOT  */
+    SQL_OFF = 377,                 /* OFF  */
+    SQL_SET = 378,                 /* SET  */
+    SQL_TOP = 379,                 /* TOP  */
+    SQL_AS = 380,                  /* AS  */
+    SQL_BY = 381,                  /* BY  */
+    SQL_IF = 382,                  /* IF  */
+    SQL_IN = 383,                  /* IN  */
+    SQL_IS = 384,                  /* IS  */
+    SQL_OF = 385,                  /* OF  */
+    SQL_ON = 386,                  /* ON  */
+    SQL_OR = 387,                  /* OR  */
+    SQL_TO = 388,                  /* TO  */
+    SQL_NO = 389,                  /* NO  */
+    SQL_ARRAY = 390,               /* ARRAY  */
+    SQL_CONCAT = 391,              /* CONCAT  */
+    SQL_ILIKE = 392,               /* ILIKE  */
+    SQL_SECOND = 393,              /* SECOND  */
+    SQL_MINUTE = 394,              /* MINUTE  */
+    SQL_HOUR = 395,                /* HOUR  */
+    SQL_DAY = 396,                 /* DAY  */
+    SQL_MONTH = 397,               /* MONTH  */
+    SQL_YEAR = 398,                /* YEAR  */
+    SQL_SECONDS = 399,             /* SECONDS  */
+    SQL_MINUTES = 400,             /* MINUTES  */
+    SQL_HOURS = 401,               /* HOURS  */
+    SQL_DAYS = 402,                /* DAYS  */
+    SQL_MONTHS = 403,              /* MONTHS  */
+    SQL_YEARS = 404,               /* YEARS  */
+    SQL_INTERVAL = 405,            /* INTERVAL  */
+    SQL_TRUE = 406,                /* TRUE  */
+    SQL_FALSE = 407,               /* FALSE  */
+    SQL_BOOLEAN = 408,             /* BOOLEAN  */
+    SQL_TRANSACTION = 409,         /* TRANSACTION  */
+    SQL_BEGIN = 410,               /* BEGIN  */
+    SQL_COMMIT = 411,              /* COMMIT  */
+    SQL_ROLLBACK = 412,            /* ROLLBACK  */
+    SQL_NOWAIT = 413,              /* NOWAIT  */
+    SQL_SKIP = 414,                /* SKIP  */
+    SQL_LOCKED = 415,              /* LOCKED  */
+    SQL_SHARE = 416,               /* SHARE  */
+    SQL_RANGE = 417,               /* RANGE  */
+    SQL_ROWS = 418,                /* ROWS  */
+    SQL_GROUPS = 419,              /* GROUPS  */
+    SQL_UNBOUNDED = 420,           /* UNBOUNDED  */
+    SQL_FOLLOWING = 421,           /* FOLLOWING  */
+    SQL_PRECEDING = 422,           /* PRECEDING  */
+    SQL_CURRENT_ROW = 423,         /* CURRENT_ROW  */
+    SQL_UNIQUE = 424,              /* UNIQUE  */
+    SQL_PRIMARY = 425,             /* PRIMARY  */
+    SQL_FOREIGN = 426,             /* FOREIGN  */
+    SQL_KEY = 427,                 /* KEY  */
+    SQL_REFERENCES = 428,          /* REFERENCES  */
+    SQL_INVALID = 429,             /* INVALID  */
+    SQL_EQUALS = 430,              /* EQUALS  */
+    SQL_NOTEQUALS = 431,           /* NOTEQUALS  */
+    SQL_LESS = 432,                /* LESS  */
+    SQL_GREATER = 433,             /* GREATER  */
+    SQL_LESSEQ = 434,              /* LESSEQ  */
+    SQL_GREATEREQ = 435,           /* GREATEREQ  */
+    SQL_NOTNULL = 436,             /* NOTNULL  */
+    SQL_UMINUS = 437               /* UMINUS  */
   };
+  typedef enum hsql_tokentype hsql_token_kind_t;
 #endif
 
 /* Value type.  */
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
-
 union HSQL_STYPE
 {
-#line 102 "bison_parser.y" /* yacc.c:1909  */
+#line 107 "bison_parser.y"
 
   // clang-format on
   bool bval;
@@ -340,9 +350,9 @@ union HSQL_STYPE
 
   // clang-format off
 
-#line 344 "bison_parser.h" /* yacc.c:1909  */
-};
+#line 354 "bison_parser.h"
 
+};
 typedef union HSQL_STYPE HSQL_STYPE;
 # define HSQL_STYPE_IS_TRIVIAL 1
 # define HSQL_STYPE_IS_DECLARED 1
@@ -364,6 +374,8 @@ struct HSQL_LTYPE
 
 
 
+
 int hsql_parse (hsql::SQLParserResult* result, yyscan_t scanner);
 
+
 #endif /* !YY_HSQL_BISON_PARSER_H_INCLUDED  */
diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 5be72ee..2de933a 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -9,11 +9,245 @@
 #define FLEX_SCANNER
 #define YY_FLEX_MAJOR_VERSION 2
 #define YY_FLEX_MINOR_VERSION 6
-#define YY_FLEX_SUBMINOR_VERSION 1
+#define YY_FLEX_SUBMINOR_VERSION 4
 #if YY_FLEX_SUBMINOR_VERSION > 0
 #define FLEX_BETA
 #endif
 
+#ifdef yy_create_buffer
+#define hsql__create_buffer_ALREADY_DEFINED
+#else
+#define yy_create_buffer hsql__create_buffer
+#endif
+
+#ifdef yy_delete_buffer
+#define hsql__delete_buffer_ALREADY_DEFINED
+#else
+#define yy_delete_buffer hsql__delete_buffer
+#endif
+
+#ifdef yy_scan_buffer
+#define hsql__scan_buffer_ALREADY_DEFINED
+#else
+#define yy_scan_buffer hsql__scan_buffer
+#endif
+
+#ifdef yy_scan_string
+#define hsql__scan_string_ALREADY_DEFINED
+#else
+#define yy_scan_string hsql__scan_string
+#endif
+
+#ifdef yy_scan_bytes
+#define hsql__scan_bytes_ALREADY_DEFINED
+#else
+#define yy_scan_bytes hsql__scan_bytes
+#endif
+
+#ifdef yy_init_buffer
+#define hsql__init_buffer_ALREADY_DEFINED
+#else
+#define yy_init_buffer hsql__init_buffer
+#endif
+
+#ifdef yy_flush_buffer
+#define hsql__flush_buffer_ALREADY_DEFINED
+#else
+#define yy_flush_buffer hsql__flush_buffer
+#endif
+
+#ifdef yy_load_buffer_state
+#define hsql__load_buffer_state_ALREADY_DEFINED
+#else
+#define yy_load_buffer_state hsql__load_buffer_state
+#endif
+
+#ifdef yy_switch_to_buffer
+#define hsql__switch_to_buffer_ALREADY_DEFINED
+#else
+#define yy_switch_to_buffer hsql__switch_to_buffer
+#endif
+
+#ifdef yypush_buffer_state
+#define hsql_push_buffer_state_ALREADY_DEFINED
+#else
+#define yypush_buffer_state hsql_push_buffer_state
+#endif
+
+#ifdef yypop_buffer_state
+#define hsql_pop_buffer_state_ALREADY_DEFINED
+#else
+#define yypop_buffer_state hsql_pop_buffer_state
+#endif
+
+#ifdef yyensure_buffer_stack
+#define hsql_ensure_buffer_stack_ALREADY_DEFINED
+#else
+#define yyensure_buffer_stack hsql_ensure_buffer_stack
+#endif
+
+#ifdef yylex
+#define hsql_lex_ALREADY_DEFINED
+#else
+#define yylex hsql_lex
+#endif
+
+#ifdef yyrestart
+#define hsql_restart_ALREADY_DEFINED
+#else
+#define yyrestart hsql_restart
+#endif
+
+#ifdef yylex_init
+#define hsql_lex_init_ALREADY_DEFINED
+#else
+#define yylex_init hsql_lex_init
+#endif
+
+#ifdef yylex_init_extra
+#define hsql_lex_init_extra_ALREADY_DEFINED
+#else
+#define yylex_init_extra hsql_lex_init_extra
+#endif
+
+#ifdef yylex_destroy
+#define hsql_lex_destroy_ALREADY_DEFINED
+#else
+#define yylex_destroy hsql_lex_destroy
+#endif
+
+#ifdef yyget_debug
+#define hsql_get_debug_ALREADY_DEFINED
+#else
+#define yyget_debug hsql_get_debug
+#endif
+
+#ifdef yyset_debug
+#define hsql_set_debug_ALREADY_DEFINED
+#else
+#define yyset_debug hsql_set_debug
+#endif
+
+#ifdef yyget_extra
+#define hsql_get_extra_ALREADY_DEFINED
+#else
+#define yyget_extra hsql_get_extra
+#endif
+
+#ifdef yyset_extra
+#define hsql_set_extra_ALREADY_DEFINED
+#else
+#define yyset_extra hsql_set_extra
+#endif
+
+#ifdef yyget_in
+#define hsql_get_in_ALREADY_DEFINED
+#else
+#define yyget_in hsql_get_in
+#endif
+
+#ifdef yyset_in
+#define hsql_set_in_ALREADY_DEFINED
+#else
+#define yyset_in hsql_set_in
+#endif
+
+#ifdef yyget_out
+#define hsql_get_out_ALREADY_DEFINED
+#else
+#define yyget_out hsql_get_out
+#endif
+
+#ifdef yyset_out
+#define hsql_set_out_ALREADY_DEFINED
+#else
+#define yyset_out hsql_set_out
+#endif
+
+#ifdef yyget_leng
+#define hsql_get_leng_ALREADY_DEFINED
+#else
+#define yyget_leng hsql_get_leng
+#endif
+
+#ifdef yyget_text
+#define hsql_get_text_ALREADY_DEFINED
+#else
+#define yyget_text hsql_get_text
+#endif
+
+#ifdef yyget_lineno
+#define hsql_get_lineno_ALREADY_DEFINED
+#else
+#define yyget_lineno hsql_get_lineno
+#endif
+
+#ifdef yyset_lineno
+#define hsql_set_lineno_ALREADY_DEFINED
+#else
+#define yyset_lineno hsql_set_lineno
+#endif
+
+#ifdef yyget_column
+#define hsql_get_column_ALREADY_DEFINED
+#else
+#define yyget_column hsql_get_column
+#endif
+
+#ifdef yyset_column
+#define hsql_set_column_ALREADY_DEFINED
+#else
+#define yyset_column hsql_set_column
+#endif
+
+#ifdef yywrap
+#define hsql_wrap_ALREADY_DEFINED
+#else
+#define yywrap hsql_wrap
+#endif
+
+#ifdef yyget_lval
+#define hsql_get_lval_ALREADY_DEFINED
+#else
+#define yyget_lval hsql_get_lval
+#endif
+
+#ifdef yyset_lval
+#define hsql_set_lval_ALREADY_DEFINED
+#else
+#define yyset_lval hsql_set_lval
+#endif
+
+#ifdef yyget_lloc
+#define hsql_get_lloc_ALREADY_DEFINED
+#else
+#define yyget_lloc hsql_get_lloc
+#endif
+
+#ifdef yyset_lloc
+#define hsql_set_lloc_ALREADY_DEFINED
+#else
+#define yyset_lloc hsql_set_lloc
+#endif
+
+#ifdef yyalloc
+#define hsql_alloc_ALREADY_DEFINED
+#else
+#define yyalloc hsql_alloc
+#endif
+
+#ifdef yyrealloc
+#define hsql_realloc_ALREADY_DEFINED
+#else
+#define yyrealloc hsql_realloc
+#endif
+
+#ifdef yyfree
+#define hsql_free_ALREADY_DEFINED
+#else
+#define yyfree hsql_free
+#endif
+
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
@@ -84,10 +318,16 @@ typedef unsigned int flex_uint32_t;
 #define UINT32_MAX             (4294967295U)
 #endif
 
+#ifndef SIZE_MAX
+#define SIZE_MAX               (~(size_t)0)
+#endif
+
 #endif /* ! C99 */
 
 #endif /* ! FLEXINT_H */
 
+/* begin standard C++ headers. */
+
 /* TODO: this is always defined, so inline it */
 #define yyconst const
 
@@ -100,12 +340,10 @@ typedef unsigned int flex_uint32_t;
 /* Returned upon end-of-file. */
 #define YY_NULL 0
 
-/* Promotes a possibly negative, possibly signed char to an unsigned
- * integer for use as an array index.  If the signed char is negative,
- * we want to instead treat it as an 8-bit unsigned char, hence the
- * double cast.
+/* Promotes a possibly negative, possibly signed char to an
+ *   integer in range [0..255] for use as an array index.
  */
-#define YY_SC_TO_UI(c) ((unsigned int) (unsigned char) c)
+#define YY_SC_TO_UI(c) ((YY_CHAR) (c))
 
 /* An opaque pointer. */
 #ifndef YY_TYPEDEF_YY_SCANNER_T
@@ -129,20 +367,16 @@ typedef void* yyscan_t;
  * definition of BEGIN.
  */
 #define BEGIN yyg->yy_start = 1 + 2 *
-
 /* Translate the current start state into a value that can be later handed
  * to BEGIN to return to the state.  The YYSTATE alias is for lex
  * compatibility.
  */
 #define YY_START ((yyg->yy_start - 1) / 2)
 #define YYSTATE YY_START
-
 /* Action number for EOF rule of a given start state. */
 #define YY_STATE_EOF(state) (YY_END_OF_BUFFER + state + 1)
-
 /* Special action meaning "start processing a new file". */
-#define YY_NEW_FILE hsql_restart(yyin ,yyscanner )
-
+#define YY_NEW_FILE yyrestart( yyin , yyscanner )
 #define YY_END_OF_BUFFER_CHAR 0
 
 /* Size of default input buffer. */
@@ -175,7 +409,7 @@ typedef size_t yy_size_t;
 #define EOB_ACT_CONTINUE_SCAN 0
 #define EOB_ACT_END_OF_FILE 1
 #define EOB_ACT_LAST_MATCH 2
-
+    
     #define YY_LESS_LINENO(n)
     #define YY_LINENO_REWIND_TO(ptr)
     
@@ -184,7 +418,7 @@ typedef size_t yy_size_t;
 	do \
 		{ \
 		/* Undo effects of setting up yytext. */ \
-        yy_size_t yyless_macro_arg = (n); \
+        int yyless_macro_arg = (n); \
         YY_LESS_LINENO(yyless_macro_arg);\
 		*yy_cp = yyg->yy_hold_char; \
 		YY_RESTORE_YY_MORE_OFFSET \
@@ -192,7 +426,6 @@ typedef size_t yy_size_t;
 		YY_DO_BEFORE_ACTION; /* set up yytext again */ \
 		} \
 	while ( 0 )
-
 #define unput(c) yyunput( c, yyg->yytext_ptr , yyscanner )
 
 #ifndef YY_STRUCT_YY_BUFFER_STATE
@@ -235,7 +468,7 @@ struct yy_buffer_state
 
     int yy_bs_lineno; /**< The line count. */
     int yy_bs_column; /**< The column count. */
-    
+
 	/* Whether to try to fill the input buffer when we reach the
 	 * end of it.
 	 */
@@ -252,7 +485,7 @@ struct yy_buffer_state
 	 * possible backing-up.
 	 *
 	 * When we actually see the EOF, we change the status to "new"
-	 * (via hsql_restart()), so that the user can continue scanning by
+	 * (via yyrestart()), so that the user can continue scanning by
 	 * just pointing yyin at a new input file.
 	 */
 #define YY_BUFFER_EOF_PENDING 2
@@ -269,73 +502,67 @@ struct yy_buffer_state
 #define YY_CURRENT_BUFFER ( yyg->yy_buffer_stack \
                           ? yyg->yy_buffer_stack[yyg->yy_buffer_stack_top] \
                           : NULL)
-
 /* Same as previous macro, but useful when we know that the buffer stack is not
  * NULL or when we need an lvalue. For internal use only.
  */
 #define YY_CURRENT_BUFFER_LVALUE yyg->yy_buffer_stack[yyg->yy_buffer_stack_top]
 
-void hsql_restart (FILE *input_file ,yyscan_t yyscanner );
-void hsql__switch_to_buffer (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__create_buffer (FILE *file,int size ,yyscan_t yyscanner );
-void hsql__delete_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql__flush_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-void hsql_pop_buffer_state (yyscan_t yyscanner );
-
-static void hsql_ensure_buffer_stack (yyscan_t yyscanner );
-static void hsql__load_buffer_state (yyscan_t yyscanner );
-static void hsql__init_buffer (YY_BUFFER_STATE b,FILE *file ,yyscan_t yyscanner );
-
-#define YY_FLUSH_BUFFER hsql__flush_buffer(YY_CURRENT_BUFFER ,yyscanner)
+void yyrestart ( FILE *input_file , yyscan_t yyscanner );
+void yy_switch_to_buffer ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_create_buffer ( FILE *file, int size , yyscan_t yyscanner );
+void yy_delete_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yy_flush_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yypush_buffer_state ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+void yypop_buffer_state ( yyscan_t yyscanner );
 
-YY_BUFFER_STATE hsql__scan_buffer (char *base,yy_size_t size ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_string (yyconst char *yy_str ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_bytes (yyconst char *bytes,int len ,yyscan_t yyscanner );
+static void yyensure_buffer_stack ( yyscan_t yyscanner );
+static void yy_load_buffer_state ( yyscan_t yyscanner );
+static void yy_init_buffer ( YY_BUFFER_STATE b, FILE *file , yyscan_t yyscanner );
+#define YY_FLUSH_BUFFER yy_flush_buffer( YY_CURRENT_BUFFER , yyscanner)
 
-void *hsql_alloc (yy_size_t ,yyscan_t yyscanner );
-void *hsql_realloc (void *,yy_size_t ,yyscan_t yyscanner );
-void hsql_free (void * ,yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_string ( const char *yy_str , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len , yyscan_t yyscanner );
 
-#define yy_new_buffer hsql__create_buffer
+void *yyalloc ( yy_size_t , yyscan_t yyscanner );
+void *yyrealloc ( void *, yy_size_t , yyscan_t yyscanner );
+void yyfree ( void * , yyscan_t yyscanner );
 
+#define yy_new_buffer yy_create_buffer
 #define yy_set_interactive(is_interactive) \
 	{ \
 	if ( ! YY_CURRENT_BUFFER ){ \
-        hsql_ensure_buffer_stack (yyscanner); \
+        yyensure_buffer_stack (yyscanner); \
 		YY_CURRENT_BUFFER_LVALUE =    \
-            hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner); \
+            yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner); \
 	} \
 	YY_CURRENT_BUFFER_LVALUE->yy_is_interactive = is_interactive; \
 	}
-
 #define yy_set_bol(at_bol) \
 	{ \
 	if ( ! YY_CURRENT_BUFFER ){\
-        hsql_ensure_buffer_stack (yyscanner); \
+        yyensure_buffer_stack (yyscanner); \
 		YY_CURRENT_BUFFER_LVALUE =    \
-            hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner); \
+            yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner); \
 	} \
 	YY_CURRENT_BUFFER_LVALUE->yy_at_bol = at_bol; \
 	}
-
 #define YY_AT_BOL() (YY_CURRENT_BUFFER_LVALUE->yy_at_bol)
 
 /* Begin user sect3 */
 
 #define hsql_wrap(yyscanner) (/*CONSTCOND*/1)
 #define YY_SKIP_YYWRAP
-
-typedef unsigned char YY_CHAR;
+typedef flex_uint8_t YY_CHAR;
 
 typedef int yy_state_type;
 
 #define yytext_ptr yytext_r
 
-static yy_state_type yy_get_previous_state (yyscan_t yyscanner );
-static yy_state_type yy_try_NUL_trans (yy_state_type current_state  ,yyscan_t yyscanner);
-static int yy_get_next_buffer (yyscan_t yyscanner );
-static void yynoreturn yy_fatal_error (yyconst char* msg ,yyscan_t yyscanner );
+static yy_state_type yy_get_previous_state ( yyscan_t yyscanner );
+static yy_state_type yy_try_NUL_trans ( yy_state_type current_state  , yyscan_t yyscanner);
+static int yy_get_next_buffer ( yyscan_t yyscanner );
+static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 
 /* Done after the current pattern has been matched and before the
  * corresponding action - sets up yytext.
@@ -346,9 +573,8 @@ static void yynoreturn yy_fatal_error (yyconst char* msg ,yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-
-#define YY_NUM_RULES 189
-#define YY_END_OF_BUFFER 190
+#define YY_NUM_RULES 188
+#define YY_END_OF_BUFFER 189
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -356,161 +582,86 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static yyconst flex_int16_t yy_accept[1368] =
+static const flex_int16_t yy_accept[690] =
     {   0,
-        0,    0,  186,  186,    2,    2,  190,  188,    4,    4,
-      188,  188,  177,  184,  177,  177,  181,  177,  177,  177,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  177,  186,  187,    2,    2,    3,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    4,  172,    0,    1,    0,
-      179,  178,  181,  174,  173,  171,  175,  183,  183,  183,
-
-      183,  183,  183,   12,  183,  183,  183,   19,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   73,  183,  183,   76,   85,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  103,  183,  183,
-      108,  111,  112,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  149,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  176,  186,  185,    2,    2,    2,    2,
-        1,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,  182,    0,  178,    5,
-      183,    7,  183,  183,   10,  183,   13,  183,  183,  183,
-
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   34,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,   49,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,   60,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-       80,  183,  183,   88,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  104,  183,  183,  183,  109,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  135,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  150,
-
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    0,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,   20,  183,   22,   23,   24,  183,  183,  183,
-       29,  183,  183,  183,   32,   35,  183,  183,  183,  183,
-      183,   41,  183,  183,  183,   46,   47,  183,  183,  183,
-      183,  183,  183,  183,  183,   57,  183,  183,  183,  183,
-       63,   64,  183,  183,   68,  183,   70,   71,  183,  183,
-
-      183,  183,  183,  183,   84,  183,   87,   89,   90,  183,
-       92,  183,  183,   95,  183,  183,  183,  183,  183,  106,
-      183,  183,  183,  183,  115,  183,  183,  118,  183,  183,
-      183,  183,  123,  183,  183,  183,  183,  183,  129,  183,
-      183,  183,  183,  137,  138,  183,  183,  183,  183,  183,
-      145,  146,  147,  183,  152,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  162,  183,  164,  183,  166,  167,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    0,    6,
-
-        8,  183,   11,  183,   15,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,   31,  183,  183,  183,  183,  183,
-      183,   40,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   56,   58,  183,  183,  183,  183,   66,
-      183,   72,   74,  183,   77,   78,  183,  183,  183,  183,
-       91,   93,  183,   96,   97,  183,  100,  183,  183,  183,
-      183,  113,  114,  183,  183,  183,  183,  183,  122,  183,
-      183,  183,  127,  183,  183,  183,  183,  136,  183,  183,
-      183,  142,  183,  183,  183,  183,  183,  155,  183,  183,
-      183,  159,  183,  183,  183,  165,  168,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    0,  183,   14,  183,
-
-       17,  183,  183,  183,   25,   27,  183,   30,  183,  183,
-      183,  183,  183,   39,  183,   43,  183,   45,  183,   50,
-       51,  183,   53,  183,  183,  183,  183,   62,   65,   67,
-       69,   75,   79,  183,  183,  183,   86,   94,   98,  101,
-      183,  105,  183,  110,  183,  183,  183,  183,  183,  183,
-      125,  183,  183,  130,  132,  134,  183,  140,  183,  143,
-      183,  183,  183,  183,  183,  156,  157,  158,  160,  183,
-      183,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    0,    9,   16,   18,
-       21,  183,   26,   28,  183,  183,  183,   37,   38,  183,
-      183,  183,   52,   54,   55,  183,   61,   81,  183,  183,
-       99,  102,  183,  183,  183,  183,  120,  121,  183,  183,
-      183,  131,  133,  183,  141,  183,  183,  183,  183,  183,
-      161,  163,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    0,  183,
-        0,   33,  183,   42,   44,   48,  183,  183,   83,  107,
-      183,  183,  183,  183,  126,  128,  139,  183,  183,  183,
-      153,  183,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    0,  183,    0,  183,
-       59,   82,  183,  117,  119,  183,  144,  148,  183,  154,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    0,    0,    0,   36,  116,  124,
-      183,    2,    2,    2,    2,    2,    2,    2,    0,    0,
-      169,  151,    2,    2,    2,    2,    0,    0,    2,    2,
-        0,    0,    2,    2,    0,    0,    2,    2,    0,    0,
-        2,    2,    0,    0,    2,    2,    0,  170,    2,    2,
-        0,    2,    0,    2,  180,    2,    0
+        0,    0,  184,  184,  189,  187,    2,    2,  187,  187,
+      175,  182,  175,  175,  179,  175,  175,  175,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  175,  184,  185,  186,    2,  170,    0,    1,
+        0,  177,  176,  179,  172,  171,  169,  173,  181,  181,
+      181,  181,  181,  181,   10,  181,  181,  181,   17,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,   71,  181,  181,   74,   83,  181,
+
+      181,  181,  181,  181,  181,  181,  181,  181,  101,  181,
+      181,  106,  109,  110,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  147,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  174,  184,  183,  180,    1,    0,
+      176,    3,  181,    5,  181,  181,    8,  181,   11,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,   32,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,   47,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,   58,  181,
+
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,   78,  181,  181,   86,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  102,  181,  181,  181,
+      107,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  133,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  148,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,    0,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,   18,  181,   20,   21,
+       22,  181,  181,  181,   27,  181,  181,  181,   30,   33,
+
+      181,  181,  181,  181,  181,   39,  181,  181,  181,   44,
+       45,  181,  181,  181,  181,  181,  181,  181,  181,   55,
+      181,  181,  181,  181,   61,   62,  181,  181,   66,  181,
+       68,   69,  181,  181,  181,  181,  181,  181,   82,  181,
+       85,   87,   88,  181,   90,  181,  181,   93,  181,  181,
+      181,  181,  181,  104,  181,  181,  181,  181,  113,  181,
+      181,  116,  181,  181,  181,  181,  121,  181,  181,  181,
+      181,  181,  127,  181,  181,  181,  181,  135,  136,  181,
+      181,  181,  181,  181,  143,  144,  145,  181,  150,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  160,  181,
+
+      162,  181,  164,  165,    0,    4,    6,  181,    9,  181,
+       13,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+       29,  181,  181,  181,  181,  181,  181,   38,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,   54,
+       56,  181,  181,  181,  181,   64,  181,   70,   72,  181,
+       75,   76,  181,  181,  181,  181,   89,   91,  181,   94,
+       95,  181,   98,  181,  181,  181,  181,  111,  112,  181,
+      181,  181,  181,  181,  120,  181,  181,  181,  125,  181,
+      181,  181,  181,  134,  181,  181,  181,  140,  181,  181,
+      181,  181,  181,  153,  181,  181,  181,  157,  181,  181,
+
+      181,  163,  166,    0,  181,   12,  181,   15,  181,  181,
+      181,   23,   25,  181,   28,  181,  181,  181,  181,  181,
+       37,  181,   41,  181,   43,  181,   48,   49,  181,   51,
+      181,  181,  181,  181,   60,   63,   65,   67,   73,   77,
+      181,  181,  181,   84,   92,   96,   99,  181,  103,  181,
+      108,  181,  181,  181,  181,  181,  181,  123,  181,  181,
+      128,  130,  132,  181,  138,  181,  141,  181,  181,  181,
+      181,  181,  154,  155,  156,  158,  181,  181,    0,    7,
+       14,   16,   19,  181,   24,   26,  181,  181,  181,   35,
+       36,  181,  181,  181,   50,   52,   53,  181,   59,   79,
+
+      181,  181,   97,  100,  181,  181,  181,  181,  118,  119,
+      181,  181,  181,  129,  131,  181,  139,  181,  181,  181,
+      181,  181,  159,  161,    0,  181,    0,   31,  181,   40,
+       42,   46,  181,  181,   81,  105,  181,  181,  181,  181,
+      124,  126,  137,  181,  181,  181,  151,  181,    0,  181,
+        0,  181,   57,   80,  181,  115,  117,  181,  142,  146,
+      181,  152,    0,    0,    0,   34,  114,  122,  181,    0,
+        0,  167,  149,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,  168,    0,    0,  178,    0
     } ;
 
-static yyconst YY_CHAR yy_ec[256] =
+static const YY_CHAR yy_ec[256] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -542,7 +693,7 @@ static yyconst YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1
     } ;
 
-static yyconst YY_CHAR yy_meta[77] =
+static const YY_CHAR yy_meta[78] =
     {   0,
         1,    1,    2,    1,    3,    1,    4,    1,    1,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    1,
@@ -551,1318 +702,347 @@ static yyconst YY_CHAR yy_meta[77] =
         5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    1
+        5,    5,    5,    5,    5,    1,    6
     } ;
 
-static yyconst flex_uint16_t yy_base[1375] =
+static const flex_int16_t yy_base[695] =
     {   0,
-        0,    0,  852,  842,   76,    0,  842, 8955,  151,  153,
-      786,    0, 8955, 8955,  149,  148,  160,  159,  778,  775,
-      156,  156,  165,  210,  202,  255,  151,  163,  265,  152,
-      171,  215,  218,  244,  295,  257,    0,  309,  349,  392,
-      163,  279,  226,  180,  676,    0,  741,    0,  237,  251,
-      696,  702,    0,    0,  243,  378,  451,  237,  682,  680,
-      470,  546,  600,  652,  700,  752,  384,  458,  795,  466,
-      532,  533,  534,  846,  895,  944,  547,  602,  990, 1042,
-      307,  650,  587,  651,  596,  301, 8955,  666, 8955,  636,
-     1107, 1117, 1128, 8955, 8955, 8955, 8955,    0,  218,  243,
-
-      300,  328,  250,  305,  379,  315,  319,    0,  376,  354,
-      694,  389,  345,  440,  710,  387,  388,  436,  439,  476,
-      463,  763,  460,  465,  480,  542,  481,  501,  521,  535,
-      591,  539,  546,    0,  584,  581,  627,  592,  607,  637,
-      657,  658,  717,  646,  658,  686,  681,  734,  705,  720,
-      717,    0,  751,  739,  757,  745,  764,  766,  755,  810,
-      769,  792,  770,  810,  811,  808,  817,  803,  822,  823,
-      842,  827,  820,  842,  871,  861,  858,  862,  866,  897,
-      872,  859,  879, 8955,    0, 8955,    0,  396,    0,  631,
-        0,  614, 1138, 1148, 1159,    0,    0,    0,    0,  942,
-
-      945, 1029,  990, 1156, 1034, 1155, 1202,  934, 1030, 1168,
-     1199, 1218, 1258, 1251, 1270, 1285, 1337, 1334, 1345, 1372,
-     1272, 1422, 1391, 1471, 1399, 1443, 1397, 1481, 1483, 1492,
-     1519, 1531, 1535, 1546, 1577, 1576, 1594, 1624, 1673, 1623,
-     1629, 1648, 1673, 1721, 1773, 1677, 1719, 1765, 1774, 1814,
-     1817, 1838, 1861, 1830, 1874, 1897, 1712, 1909, 1941, 1730,
-     1916, 1993, 1946, 1972, 1990, 2042, 2015, 2033, 2059, 2081,
-     2093, 2095, 2127, 2123, 2145, 2147, 2183, 2230, 2191, 2177,
-     2222, 2239, 2265, 2274, 2287,    0, 8955,  601, 2352,    0,
-      882,    0,  903,  900,    0,  933,    0,  940,  954,  941,
-
-      960,  988, 1001, 1156, 1038, 1038, 1050, 1044, 1137, 1162,
-     1145, 1147, 1166, 1153, 1166, 1203, 1216, 1260, 1221, 1220,
-     1207, 1226, 1215, 1229, 1247,    0, 1280, 1309, 1317, 1309,
-     1321, 1317, 1317, 1339, 1344, 1356, 1369, 1376, 1378, 1390,
-     1379, 1412, 1422, 1423, 1426, 1437, 1436, 1449, 1451, 1480,
-     1537, 1469, 1488,    0, 1490, 1516, 1530, 1537, 1593, 1538,
-     1543, 1532, 1555, 1557,    0, 1592, 1602, 1606, 1613, 1638,
-     1640, 1630, 1682, 1672, 1753, 1727, 1734, 1739, 1770, 1779,
-     1761, 1782, 1779, 1776, 1795, 1790, 1838,    0, 1827, 1824,
-     1867, 1880, 1875, 1876, 1887, 1888, 1886, 1918, 1932,    0,
-
-     1933, 1974, 1934, 1993, 1948, 1999, 1987, 1998, 2046, 2027,
-     2032, 2064, 2045, 2074,    0,  600, 2362, 2355, 2356, 2357,
-     2358, 2281, 2392, 2400, 2401, 2412, 2440, 2448, 2453, 2455,
-     2469, 2518, 2494, 2519, 2532, 2568, 2544, 2580, 2578, 2609,
-     2621, 2623, 2637, 2662, 2680, 2677, 2712, 2721, 2730, 2756,
-     2771, 2769, 2774, 2810, 2819, 2824, 2854, 2826, 2829, 2869,
-     2880, 2880, 2902, 2921, 2934, 2943, 2968, 2979, 2992, 3015,
-     3017, 3032, 3058, 3066, 3080, 3092, 3104, 3106, 3118, 3130,
-     3145, 3149, 3173, 3174, 3193, 3218, 3270, 3196, 3232, 3267,
-     3231, 3292, 3295, 3320, 3327, 3341, 3355, 3366, 3380, 3395,
-
-     3447, 3395, 3497, 3430, 3473, 3414, 3493, 3532, 3541, 3544,
-     3551, 3575, 3576, 3595, 3598, 3600, 3630, 3644, 3649, 3605,
-     3659, 3683, 3697, 3701, 3737, 3741, 3749, 3754, 3781, 3797,
-     3798, 3830, 3844, 3856, 3844, 3885, 3888, 3891, 3926, 3935,
-     3944, 3970,  582, 2085, 2089, 2090, 2091, 2104, 2130, 2148,
-     2147, 2171,    0, 2192,    0,    0, 2193, 2197, 2215, 2208,
-        0, 2218, 2230, 2245, 2238,    0, 2248, 2273, 2277, 2283,
-     2303, 2290, 2306, 2302, 2356,    0,    0, 2365, 2359, 2360,
-     2357, 2403, 2428, 2431, 2429,    0, 2440, 2455, 2466, 2476,
-        0,    0, 2485, 2475,    0, 2511,    0, 2510, 2526, 2517,
-
-     2555, 2564, 2569, 2600,    0, 2586,    0,    0,    0, 2591,
-        0, 2601, 2626,    0, 2634, 2660, 2633, 2625, 2663,    0,
-     2681, 2686, 2675, 2678,    0, 2688, 2716,    0, 2728, 2739,
-     2740, 2738,    0, 2757, 2777, 2773, 2775, 2798,    0, 2791,
-     2795, 2834, 2868,    0,    0, 2862, 2877, 2882, 2892, 2883,
-        0,    0, 2883, 2904,    0, 2925, 2915, 2923, 2921, 2945,
-     2931, 2950, 2956, 2982,    0, 2973,    0, 2992,    0, 2982,
-      544, 3979, 3988, 4017, 4026, 4039, 4026, 4051, 4076, 4077,
-     4089, 4111, 4119, 4133, 4145, 4159, 4171, 4197, 4185, 4199,
-     4206, 4223, 4249, 4235, 4249, 4270, 4293, 4306, 4336, 4344,
-
-     4362, 4261, 4385, 4386, 4404, 4430, 4444, 4458, 4472, 4486,
-     4502, 4528, 4519, 4545, 4553, 4567, 4579, 4597, 4605, 4619,
-     4631, 4649, 4657, 4656, 4684, 4692, 4685, 4727, 4700, 4736,
-     4752, 4797, 4766, 4794, 4808, 4827, 4838, 4841, 4857, 4871,
-     4896, 4904, 4909, 4911, 4925, 4951, 4963, 4968, 4976, 4998,
-     5017, 5036, 5051, 5077, 5080, 5089, 5115, 5133, 5134, 5159,
-     5168, 5187, 5209, 5212, 5238, 5250, 5241, 5263, 4970, 5294,
-     5289, 5302, 5307, 5024, 5321, 5343, 5346, 5351, 5365, 5387,
-     5392, 5396, 5422, 5441, 5438, 5464, 5483, 5497, 5494, 5525,
-     5449, 5542, 5537, 5576, 5577, 5578, 5590, 5592,  543,    0,
-
-        0, 3009,    0, 3040,    0, 3046, 3035, 3059, 3061, 3090,
-     3085, 3094, 3110, 3142,    0, 3135, 3144, 3152, 3176, 3195,
-     3210,    0, 3208, 3211, 3239, 3254, 3253, 3264, 3267, 3271,
-     3286, 3302, 3313,    0,    0, 3300, 3323, 3316, 3337, 3342,
-     3363,    0,    0, 3364,    0,    0, 3370, 3398, 3442, 3411,
-        0,    0, 3420,    0,    0, 3434, 3438, 3458, 3443, 3460,
-     3454,    0,    0, 3472, 3458, 3489, 3478, 3485,    0, 3510,
-     3512, 3519,    0, 3530, 3550, 3567, 3575,    0, 3597, 3607,
-     3640, 3624, 3639, 3640, 3660, 3662, 3663,    0, 3694, 3704,
-     3707,    0, 3695, 3717, 3718,    0,    0,  536, 5622, 5625,
-
-     5633, 5636, 5676, 5684, 5685, 5710, 5738, 5729, 5764, 5763,
-     5764, 5792, 5814, 5816, 5808, 5828, 5846, 5864, 5862, 5882,
-     5890, 5912, 5920, 5919, 5944, 5946, 5968, 5970, 5994, 5999,
-     6019, 6022, 6024, 6048, 6060, 6063, 6089, 6067, 6105, 6116,
-     6108, 6146, 6149, 6152, 6160, 6190, 6203, 6201, 6232, 6245,
-     6246, 6276, 6287, 6290, 6315, 6320, 6334, 6358, 6376, 6367,
-     6407, 6411, 6419, 6434, 6459, 6460, 6488, 6489, 6513, 6514,
-     6527, 6539, 6542, 6567, 6581, 6568, 6593, 6596, 6622, 6635,
-     6627, 6667, 6670, 6691, 6719, 6683, 6727, 6739, 6752, 6744,
-     6780, 6778, 6799, 6825, 6822, 6843,  526, 3718,    0, 3748,
-
-        0, 3753, 3765, 3751, 3753,    0, 3765,    0, 3790, 3801,
-     3812, 3805, 3799,    0, 3822,    0, 3822,    0, 3819,    0,
-        0, 3862,    0, 3875, 3873, 3892, 3903,    0,    0,    0,
-        0,    0,    0, 3903, 3930, 3942,    0,    0, 3932,    0,
-     3948,    0, 3968,    0, 3972, 3992, 4001, 4031, 4018, 4032,
-        0, 4044, 4049, 4061, 4077,    0, 4091,    0, 4094,    0,
-     4107, 4109, 4115, 4110, 4136,    0,    0,    0,    0, 4134,
-     4144,  525, 6860, 6865, 6867, 6881, 6897, 6910, 6919, 6935,
-     6944, 6953, 6977, 6986, 6995, 7026, 7030, 7039, 7070, 7081,
-     7084, 7112, 7125, 7126, 7156, 7167, 7169, 7178, 7203, 7212,
-
-     7214, 7221, 7256, 7257, 7265, 7298, 7301, 7307, 7342, 7350,
-     7369, 7364, 7394, 7396, 7410, 7419, 7438, 7452, 7471, 7480,
-     7500, 7509, 7524, 7538, 7516, 7559, 7565, 7589, 7603, 7612,
-     7631, 7645, 7654, 7673, 7687, 7701, 7720, 7743, 7744, 7774,
-     7785, 7788, 7804, 7818, 7834, 7837,  529,    0,    0,    0,
-        0, 4157,    0,    0,  436, 4161, 4177,    0,    0, 4177,
-     4196, 4219,    0,    0,    0, 4258,    0,    0, 4276, 4280,
-        0,    0, 4284, 4299, 4293, 4301,    0,    0, 4319, 4304,
-     4316,    0,    0, 4320,    0, 4325, 4333, 4341, 4361, 4364,
-        0,    0,  527, 7848, 7872, 7878, 7881, 7901, 7916, 7925,
-
-     7955, 7940, 7970, 7969, 7984, 7999, 8008, 8038, 8033, 8052,
-     8074, 8013, 8054, 8084, 8108, 8095, 8131, 8139, 8150, 8151,
-     8156, 8185, 8188, 8199, 8218, 8232, 8251, 8262, 8281, 8292,
-     8295, 8311, 8335, 8341, 8358, 8380, 8388, 8393,  526, 4361,
-     4434,    0, 4360,    0,    0,    0, 4377, 4374,    0,    0,
-     4384, 4398, 4412, 4415,    0,    0,    0, 4405, 4419, 4429,
-        0, 4436,  524, 8418, 4781, 8406, 8432, 8444, 8446, 8468,
-     8480, 8498, 8506, 8524, 8546, 8551, 8555, 8568, 8590, 8598,
-     8603, 8612, 8642, 8644, 8647, 8656,  514,  438, 4433, 4446,
-        0,    0, 4434,    0,    0, 4469,    0,    0, 4477,    0,
-
-      506, 8710, 4493, 8688, 8696, 8697, 8731, 8739, 8742, 8745,
-     8775, 8783, 8795, 8800,  470, 4558, 4499,    0,    0,    0,
-     4522,  468, 4698, 4536, 8803, 8808, 8844, 8842,  465, 4563,
-     8955,    0,  418, 4565,    0, 8851,  418, 4572,  390, 4578,
-      388, 4583,  386, 4591,  347, 4609,  343, 4617,  338, 4628,
-      335, 4636,  334, 4653,  332, 4679,  303, 8955,  293,    0,
-      299,  286,  248,  243, 8955,    0, 8955, 8924, 8929,  201,
-     8934, 8939, 8944, 8949
+        0,    0,   71,   72,  368, 1476,   78,   80,  345,    0,
+     1476, 1476,   76,   75,   87,   86,  342,  307,  124,   82,
+       87,  132,  132,  183,   78,  130,  174,   74,   87,  170,
+      185,  188,  220,  217,    0,  239,  279,  322,  233,  112,
+      188,   88,  235,    0,  303, 1476,  118, 1476,  289,    0,
+      273,  308,  380,  391, 1476, 1476, 1476, 1476,    0,  121,
+      129,  231,  279,  136,  202,  309,  226,  224,    0,  274,
+      245,  312,  303,  232,  313,  388,  374,  237,  249,  293,
+      392,  329,  394,  322,  324,  375,  386,  386,  390,  390,
+      391,  389,  395,  391,    0,  404,  399,  439,  430,  436,
+
+      421,  441,  437,  448,  434,  440,  441,  436,  437,  449,
+      462,  458,    0,  461,  446,  462,  450,  468,  492,  484,
+      498,  493,  490,  495,  502,  505,  498,  507,  491,  509,
+      509,  529,  511,  505,  503,  547,  548,  547,  543,  543,
+      549,  551,  538,  558, 1476,    0, 1476, 1476,    0,  269,
+      608,    0,  557,    0,  558,  552,    0,  564,    0,  551,
+      597,  584,  599,  597,  598,  608,  594,  593,  602,  596,
+      592,  617,  600,  602,  616,  603,  611,  615,  624,  648,
+      624,  624,  610,  629,  616,  655,  646,    0,  661,  658,
+      661,  646,  654,  649,  650,  665,  670,  660,  668,  661,
+
+      663,  674,  656,  670,  670,  662,  665,  673,  670,  681,
+      702,  709,  710,  695,  703,    0,  698,  714,  711,  717,
+      721,  716,  717,  705,  707,  707,    0,  728,  718,  713,
+      714,  730,  731,  719,  760,  724,  763,  727,  761,  757,
+      765,  770,  752,  765,  762,  756,  771,  762,  773,    0,
+      763,  759,  767,  772,  765,  766,  775,  773,  770,  777,
+      787,    0,  780,  810,  805,  808,  807,  825,  813,  807,
+      826,  807,  811,  818,  825,  816,  266,  817,  819,  813,
+      814,  822,  827,  838,  830,  840,    0,  845,    0,    0,
+      847,  856,  865,  858,    0,  857,  859,  874,  860,    0,
+
+      869,  869,  862,  864,  884,  868,  884,  879,  877,    0,
+        0,  886,  875,  876,  872,  874,  894,  896,  893,    0,
+      879,  885,  893,  922,    0,    0,  927,  914,    0,  917,
+        0,  913,  928,  916,  911,  918,  919,  931,    0,  927,
+        0,    0,    0,  920,    0,  929,  937,    0,  938,  925,
+      938,  929,  939,    0,  948,  947,  935,  936,    0,  943,
+      968,    0,  977,  983,  984,  981,    0,  969,  975,  971,
+      970,  989,    0,  979,  979,  991,  990,    0,    0,  984,
+      992,  989,  994,  985,    0,    0,  982,  983,    0, 1000,
+      984,  992,  986, 1007,  990, 1024, 1031, 1030,    0, 1018,
+
+        0, 1035,    0, 1022,  264,    0,    0, 1016,    0, 1038,
+        0, 1039, 1025, 1045, 1043, 1045, 1035, 1030, 1036, 1047,
+        0, 1039, 1045, 1040, 1055, 1045, 1054,    0, 1051, 1041,
+     1048, 1059, 1076, 1085, 1072, 1073, 1075, 1086, 1093,    0,
+        0, 1074, 1091, 1079, 1088, 1082, 1095,    0,    0, 1083,
+        0,    0, 1084, 1100, 1087, 1095,    0,    0, 1104,    0,
+        0, 1105, 1092, 1112, 1094, 1107, 1096,    0,    0, 1113,
+     1119, 1140, 1128, 1129,    0, 1143, 1144, 1141,    0, 1150,
+     1151, 1149, 1134,    0, 1146, 1152, 1156, 1139, 1141, 1140,
+     1160, 1161, 1149,    0, 1159, 1161, 1162,    0, 1149, 1168,
+
+     1169,    0,    0,  213, 1167,    0, 1179,    0, 1184, 1195,
+     1181, 1183,    0, 1191,    0, 1184, 1192, 1203, 1195, 1188,
+        0, 1207,    0, 1207,    0, 1197,    0,    0, 1207,    0,
+     1199, 1194, 1206, 1202,    0,    0,    0,    0,    0,    0,
+     1199, 1213, 1218,    0,    0, 1202,    0, 1210,    0, 1222,
+        0, 1204, 1217, 1238, 1247, 1229, 1241,    0, 1253, 1254,
+     1239, 1240,    0, 1246,    0, 1249,    0, 1261, 1262, 1261,
+     1245, 1262,    0,    0,    0,    0, 1249, 1256,  209,    0,
+        0,    0,    0, 1264,    0,    0,  120, 1265, 1270,    0,
+        0, 1267, 1253, 1268,    0,    0,    0, 1262,    0,    0,
+
+     1274, 1266,    0,    0, 1262, 1296, 1291, 1294,    0,    0,
+     1306, 1290, 1300,    0,    0, 1292,    0, 1295, 1301, 1295,
+     1311, 1312,    0,    0,  203, 1300, 1339,    0, 1301,    0,
+        0,    0, 1315, 1303,    0,    0, 1306, 1311, 1319, 1322,
+        0,    0,    0, 1304, 1315, 1323,    0, 1330,  191,  123,
+     1331, 1342,    0,    0, 1336,    0,    0, 1341,    0,    0,
+     1347,    0,  173, 1383, 1342,    0,    0,    0, 1352,  166,
+     1366, 1476,    0,  168, 1350,  167, 1344,  158, 1361,  117,
+     1357,  118, 1365,  114, 1476,  121,  110, 1476, 1476, 1454,
+     1460,  111, 1465, 1470
+
     } ;
 
-static yyconst flex_int16_t yy_def[1375] =
+static const flex_int16_t yy_def[695] =
     {   0,
-     1367,    1, 1368, 1368, 1367,    5, 1367, 1367, 1367, 1367,
-     1367, 1369, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1367, 1371, 1367, 1372, 1372, 1367,
-     1372, 1373, 1372, 1372, 1372, 1372, 1372, 1372, 1372, 1372,
-     1374, 1374,   62,   62,   62,   63,   65,   62,   65,   62,
-       62,   62,   62,   63,   63,   63,   62,   62,   62,   62,
-       65,   62,   62,   62, 1372, 1367, 1367, 1369, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1367, 1371, 1367, 1372, 1372, 1372, 1373,
-     1372, 1372, 1372, 1372, 1372, 1372, 1372, 1372, 1372,   62,
-
-       62,   62,   65,   65,   65,   65,   65,   65,   62,   62,
-       65,   65,   65,   62,   62,   62,   65,   65,   65,   62,
-       65,   65,   65,   62,   65,   65,   62,   65,   62,   65,
-       62,   62,   65,   65,   65,   65,   62,   62,   65,   65,
-       62,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   62,   62,   62,   62,
-       65,   65,   65,   65,   65,   65,   62,   62,   62,   62,
-       62,   62,   65,   62,   62,   62,   63,   62,   62,   62,
-       65,   62,   62,   62,   62, 1372, 1367, 1367, 1367, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1372, 1372, 1372,   62,   62,   62,
-       62,   65,   65,   65,   65,   62,   62,   62,   62,   65,
-       65,   62,   62,   62,   62,   62,   62,   62,   65,   65,
-       62,   65,   65,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   65,   65,   65,
-       65,   62,   62,   65,   62,   62,   65,   65,   65,   65,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       65,   65,   65,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   65,   65,   65,   62,   62,   62,
-
-       62,   65,   65,   65,   65,   65,   62,   62,   62,   62,
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   65,
-       65,   65,   65,   65,   65,   65,   62,   62,   65,   65,
-       62,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-       65,   65, 1367, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1372,   65,   65,   62,   62,   62,   65,   62,   65,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       65,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-
-       65,   62,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   65,   65,   65,   62,   62,   65,   65,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       62,   62,   62,   65,   65,   65,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   65,   65,
-       62,   62,   62,   65,   62,   62,   62,   62,   62,   62,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       62,   62,   62,   62,   62,   62,   62,   65, 1367, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1372,   65,   65,
-
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   65,
-       65,   62,   62,   62,   65,   62,   62,   62,   65,   62,
-       62,   62,   62,   65,   62,   62,   62,   62,   62,   65,
-       62,   62,   62,   62,   62,   62,   62,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   62,   65,   65,   65,
-       65,   65,   65,   65,   62,   65,   65,   65,   65,   65,
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       65,   65,   65,   65,   65,   65,   65,   62,   62,   62,
-       62,   65,   65,   65,   65,   65, 1367, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1372,   62,   62,   65,   65,   65,   62,   62,   65,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   62,   62,   65,   65,
-
-       62,   65,   65,   65,   65,   65,   65,   65,   65,   62,
-       62,   62,   62,   65,   65,   65,   65,   65,   65,   65,
-       62,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65, 1367, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1372,   65,   65,   65,   65,   62,   62,   62,
-
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   65,   65,   65,   65,   65,   65,   65,   65,   62,
-       62,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   62,   62,   62,   62, 1367, 1370,
-     1367, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1372,   62, 1372,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   65,   65,   62,   62,   62,
-       62,   62,   62,   62,   62,   62, 1367, 1370, 1367, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1372,   62, 1372,   62,   62,   62,   65,   65,   65,   65,
-       65,   65,   62,   62, 1367, 1367, 1367, 1370, 1370, 1370,
-     1370, 1372, 1372, 1372,   62,   62,   62,   65, 1367, 1367,
-     1367, 1370, 1372, 1372, 1372,   65, 1367, 1367, 1372, 1372,
-     1367, 1367, 1372, 1372, 1367, 1367, 1372, 1372, 1367, 1367,
-     1372, 1372, 1367, 1367, 1372, 1372, 1367, 1367, 1372, 1372,
-     1367, 1372, 1367, 1372, 1367, 1372,    0, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367
+      689,    1,  690,  690,  689,  689,  689,  689,  689,  691,
+      689,  689,  689,  689,  689,  689,  689,  689,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  689,  693,  689,  689,  689,  689,  691,  694,
+      689,  689,  689,  689,  689,  689,  689,  689,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  689,  693,  689,  689,  694,  689,
+      689,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  689,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  689,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  689,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  689,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  689,  692,  689,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  689,  692,
+      689,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  689,  689,  689,  692,  692,  692,  692,  689,
+      689,  689,  692,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,    0,  689,
+      689,  689,  689,  689
+
     } ;
 
-static yyconst flex_uint16_t yy_nxt[9032] =
+static const flex_int16_t yy_nxt[1554] =
     {   0,
-        8,    9,   10,   11,   12,   13,   14,   15,   16,   17,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   18,
-       19,   20,   21,   22,   23,   24,   25,   26,   27,   28,
-       29,   30,   31,   32,   33,   34,   35,   36,   37,   38,
-       39,   40,   41,   42,   43,   37,   44,   37,    8,   21,
-       22,   23,   24,   25,   26,   27,   28,   29,   30,   31,
-       32,   33,   34,   35,   36,   37,   38,   39,   40,   41,
-       42,   43,   37,   44,   37,   45,   48,   49,   50,   51,
-       52,   53,   54,   55,   56,   57,   57,   57,   57,   57,
-       57,   57,   57,   57,   57,   58,   59,   60,   61,   62,
-
-       63,   64,   65,   66,   67,   68,   69,   70,   71,   72,
-       73,   74,   75,   76,   77,   78,   79,   80,   81,   82,
-       83,   77,   84,   77,   48,   61,   62,   63,   64,   65,
-       66,   67,   68,   69,   70,   71,   72,   73,   74,   75,
-       76,   77,   78,   79,   80,   81,   82,   83,   77,   84,
-       77,   85,   86,   86,   86,   86,   89,   91,   91,   91,
-       91,   91,   91,   91,   91,   91,   91,   90,   92,   93,
-       93,   93,   93,   93,   93,   93,   93,   93,   93,   94,
-       95,   99,  105,  100,  129,  131,  106,  109,  139,  101,
-      130,  102,  107,  132,  110,  103,  104,  140,  176,  133,
-
-      177,  111,  108,  178,  112,   98,  183,  113,   99,  105,
-      100,  129,  131,  106,  109,  139,  101,  130,  102,  107,
-      132,  110,  103,  104,  140,  176,  133,  177,  111,  108,
-      178,  112,  114,  183,  113,  119,  115,  120,  188,   86,
-      116,  141,  121,  290,  144,  142,  117,  122,  145,  118,
-      191,  143,   86,   86,  146,  181,  182,  196,  197,  114,
-     1366,  192,  119,  115,  120, 1365,  147,  116,  141,  121,
-      290,  144,  142,  117,  122,  145,  118,  123,  143,  156,
-      148,  146,  181,  182,  291,  124,  149,  150,  125,  296,
-      157,  126,  134,  147,  127, 1364,  158,  128,  135,  136,
-
-      137,  179,   86,   86,  123,  138,  156,  148, 1363,  180,
-     1362,  291,  124,  149,  150,  125,  296,  157,  126,  134,
-     1361,  127,  151,  158,  128,  135,  136,  137,  179,  297,
-      152,  159,  138,  292,  153,  160,  180,  154,  155,  161,
-      200,  293,  278,  301,  279,  162, 1359,  280, 1357,  151,
-      294, 1355,  200,  295, 1353,  302,  297,  152,  159, 1351,
-      292,  153,  160, 1349,  154,  155,  161,  200,  293,  278,
-      301,  279,  162,  163,  280,  164,  305,  294,  165,  200,
-      295,  166,  302,  167,  312,  168,  169,  193,  193,  193,
-      193,  193,  193,  193,  193,  193,  193,  188,   86, 1347,
-
-      163, 1345,  164,  305, 1343,  165,  298,  299,  166,  303,
-      167,  312,  168,  169,  170,  310,  304,  231,  171,  200,
-      300,  172,  173,  232,  200,  311,  320,  321,  174,  200,
-      322,  175, 1341,  298,  299, 1339,  303, 1241, 1241, 1316,
-     1316,  170,  310,  304,  231,  171,  200,  300,  172,  173,
-      232,  200,  311,  320,  321,  174,  200,  322,  175,  194,
-      195,  195,  195,  195,  195,  195,  195,  195,  195,  195,
-      187,  187,  323,  187,  187,  187,  187,  187,  187,  324,
-      233,  313, 1337, 1333,  200, 1329,  314,  327,  234,  187,
-      187,  187,  200,  333,  235,  201,  200,  202,  334,  323,
-
-      325,  326,  241,  203,  200,  204,  324,  233,  313,  205,
-      206,  200,  200,  314,  327,  234,  335,  338, 1322,  200,
-      333,  235,  201,  200,  202,  334, 1315,  325,  326,  241,
-      203,  200,  204, 1301,  339, 1287,  205,  206, 1263,  200,
-     1239, 1193, 1147,  335,  338,  187,  187,  187, 1072,  187,
-      187,  187,  187,  187,  187,  997,  898,  340,  242,  243,
-      246,  339,  200,  244,  247,  187,  187,  187,  200,  245,
-      248,  341,  207,  200,  344,  336,  208,  200,  200,  200,
-      200,  337,  209,  200,  340,  242,  243,  246,  345,  200,
-      244,  247,  210,  200,  799,  200,  245,  248,  341,  207,
-
-      200,  344,  336,  208,  200,  200,  200,  200,  337,  209,
-      200,  671,  543,  200,  346,  345,  283,  284,  347,  210,
-      200,  187,  211,  200,  261,  416,  200,  352,  262,  212,
-      200,  342,  263,  200,  343,  415,  213,  353,  264,  214,
-      200,  346,  215,  283,  284,  347,  200,  288,  200,  211,
-      200,  261,  348,  200,  352,  262,  212,  200,  342,  263,
-      200,  343,  349,  213,  353,  264,  214,  350,  351,  215,
-      287,  286,  281,  200,  216,  200,  200,  285,  217,  348,
-      282,  200,  218,  354,  355,  361,  200,  200,  219,  349,
-      356,  220,  357,  362,  350,  351,  200,  200,  200,  281,
-
-      199,  216,  198,  200,  285,  217,  187,  282,  200,  218,
-      354,  355,  361,  200,  200,  219,  189,  356,  220,  357,
-      362,  363,  364,  200,  200,  200,  200,  306,  307,  308,
-      200,  309,  315,  221,  316,  222,  200,  317,  367,  358,
-      223,  359,  368,  318,  369,  224,  200,  186,  363,  364,
-      319,  184,  360,  200,  306,  307,  308,  200,  309,  315,
-      221,  316,  222,  200,  317,  367,  358,  223,  359,  368,
-      318,  369,  224,  200,  225,  365,  370,  319,  366,  360,
-      371,  200,  226,  372,  373,  227,  374,  328,  228,  329,
-      377,  229,  375,  330,  230,   97,  376,  382,   96,  385,
-
-      331,  225,  365,  370,  332,  366,   87,  371,  200,  226,
-      372,  373,  227,  374,  328,  228,  329,  377,  229,  375,
-      330,  230,  236,  376,  382,  383,  385,  331,  237,  238,
-      239,  332,  378,  389,  386,  240,  384,  379,  391,  392,
-      200, 1367,  393,  387,  394,  380,  395,  390,   47,  236,
-      381,  388,  383,  398,  399,  237,  238,  239,   47,  378,
-      389,  386,  240,  384,  379,  391,  392,  200,  249,  393,
-      387,  394,  380,  395,  390,  200,  396,  381,  388,  400,
-      398,  399,  250,  406,  403,  200, 1367,  397,  251,  252,
-     1367,  404,  407,  401,  405,  249, 1367, 1367,  412,  408,
-
-      413,  414,  200,  396, 1367,  409,  400, 1367,  544,  250,
-      406,  403,  200,  402,  397,  251,  252,  200,  404,  407,
-      401,  405,  253,  410,  200,  412,  408,  413,  414,  545,
-      254,  200,  409,  546,  255,  544,  411,  256,  257, 1367,
-      402, 1367, 1367, 1367,  200, 1367, 1367, 1367, 1367,  253,
-      410,  200, 1367, 1367, 1367,  547,  545,  254,  200, 1367,
-      546,  255,  429,  411,  256,  257,  258,  200,  200,  200,
-      418,  200,  200,  200,  200,  200,  548,  259,  200,  200,
-      200,  200,  547,  260,  549,  550,  200, 1367,  200,  429,
-      551,  200, 1367,  258,  200,  200,  200,  418,  200,  200,
-
-      200,  200,  200,  548,  259,  200,  200,  200,  200, 1367,
-      260,  549,  550,  200,  265,  200,  266,  551,  200,  267,
-      200,  552,  268,  420,  269,  200,  270,  271, 1367, 1367,
-      200,  421, 1367, 1367,  553,  200,  200, 1367, 1367, 1367,
-     1367,  265, 1367,  266, 1367, 1367,  267,  200,  552,  268,
-      420,  269,  200,  270,  271,  200,  200,  200,  421,  200,
-      200,  553,  200,  200,  272,  200,  430,  200,  273,  200,
-      419,  274,  275,  424,  200,  200,  200,  557,  276,  200,
-      558,  277,  200,  200,  559,  560,  200,  200,  200, 1367,
-     1367,  272,  200,  430,  200,  273,  200,  419,  274,  275,
-
-      424,  200,  200,  200,  557,  276,  200,  558,  277, 1367,
-     1367,  559,  560, 1367, 1367,  200,   91,   91,   91,   91,
-       91,   91,   91,   91,   91,   91,  289,  289,  289,  289,
-      289,  289,  289,  289,  289,  289,   92,   93,   93,   93,
-       93,   93,   93,   93,   93,   93,   93,  193,  193,  193,
-      193,  193,  193,  193,  193,  193,  193,  417,  417,  417,
-      417,  417,  417,  417,  417,  417,  417,  194,  195,  195,
-      195,  195,  195,  195,  195,  195,  195,  195,  422,  425,
-      554,  423,  555,  561,  562,  563,  564, 1367,  200,  200,
-      200,  200,  565,  566,  200,  200,  200,  556,  200,  567,
-
-      200,  200, 1367, 1367,  200,  422,  425,  554,  423,  555,
-      561,  562,  563,  564,  200,  200,  200,  200,  200,  565,
-      566,  200,  200,  200,  556,  200,  567,  200,  200,  426,
-      427,  200,  431,  568,  200,  200, 1367,  200,  569,  432,
-      433,  200,  200,  428,  200,  572,  573,  200,  574,  575,
-     1367,  200,  576,  200, 1367,  577,  426,  427,  200,  431,
-      568,  200,  200,  200,  200,  569,  432,  433, 1367,  200,
-      428,  200,  572,  573,  200,  574,  575,  438,  200,  576,
-      200,  200,  577,  578, 1367,  200,  570,  439, 1367, 1367,
-      200,  434,  435,  436, 1367,  437,  200,  200,  200, 1367,
-
-      200,  571,  579,  200,  438,  200,  200,  200,  200,  440,
-      578,  200,  452,  570,  439,  200,  200,  200,  434,  435,
-      436,  200,  437,  200,  200,  200,  441,  200,  571,  579,
-      200,  442,  200,  200,  200,  580,  440, 1367,  200,  452,
-     1367,  581,  200,  200,  200, 1367, 1367, 1367,  200,  582,
-     1367, 1367, 1367,  441,  583, 1367,  584,  585,  442,  443,
-     1367,  444,  580, 1367,  445,  586,  587,  200,  581,  200,
-      446, 1367,  200,  448,  449, 1367,  582,  447,  200,  200,
-      200,  583,  200,  584,  585,  200,  443,  450,  444,  588,
-      200,  445,  586,  587,  200,  589,  200,  446,  200,  200,
-
-      448,  449,  200,  590,  447,  200,  200,  200,  451,  200,
-      591,  592,  200,  593,  450,  455,  588,  200,  200, 1367,
-     1367,  594,  589,  200,  200,  200,  200,  200, 1367,  200,
-      590,  200,  461,  463,  200,  451,  200,  591,  592,  200,
-      593,  595,  455,  200,  200,  200,  453,  454,  594, 1367,
-      200,  200,  596,  200,  200,  200, 1367,  200,  200,  461,
-      463,  200,  200,  200,  597,  598,  200,  200,  595,  599,
-      200,  200,  600,  453,  454,  601,  462,  602,  200,  596,
-     1367, 1367,  200,  200,  200, 1367, 1367, 1367,  200,  200,
-     1367,  597,  598, 1367,  200,  456,  599,  457, 1367,  600,
-
-     1367,  458,  601,  462,  602,  200,  603,  200,  459,  200,
-      200,  606,  460,  200,  464,  200,  200,  200, 1367,  466,
-      465,  200,  456,  607,  457,  467,  200,  200,  458,  200,
-     1367,  608,  200,  603,  200,  459,  200,  200,  606,  460,
-      200,  464,  609,  200,  200,  200,  466,  465,  200,  200,
-      607, 1367,  467,  200,  200,  468,  200,  200,  608,  200,
-      610,  200,  611,  604,  200,  200,  614,  469,  200,  609,
-      200,  615,  200,  605,  616,  470,  200,  200,  471,  200,
-      200,  472,  468, 1367,  200, 1367,  200,  610,  200,  611,
-      604,  200,  200,  614,  469,  200,  617,  200,  615,  618,
-
-      605,  616,  470, 1367,  200,  471,  200,  200,  472,  200,
-      200,  200,  200,  200,  619,  612,  200,  200,  200,  473,
-      200,  200,  200,  617,  474,  613,  618, 1367, 1367, 1367,
-      200, 1367, 1367, 1367, 1367,  620,  200,  200,  200,  200,
-      200,  619,  612,  200,  200,  621,  473,  200,  200,  200,
-      200,  474,  613,  622,  200,  200,  200,  200,  480,  481,
-      200,  475,  620,  200,  623,  200,  624,  200,  200,  625,
-      200, 1367,  621, 1367,  200,  200, 1367,  200,  200, 1367,
-      622,  200,  200,  200,  200,  480,  481,  200,  475, 1367,
-      200,  623,  200,  624,  482,  200,  625,  200,  476,  200,
-
-      483,  200,  200,  200,  626,  200,  200,  628,  477,  200,
-      200,  200,  200,  478,  479, 1367,  489,  200,  200,  200,
-     1367,  482,  200,  627, 1367,  476,  200,  483, 1367, 1367,
-      200,  626, 1367,  200,  628,  477,  200,  200,  500,  200,
-      478,  479,  200,  489,  200,  200,  200,  200,  200,  200,
-      627,  200,  200,  484,  490,  485,  503,  200,  200,  200,
-      504,  631,  632, 1367,  200,  500,  200,  200, 1367,  200,
-     1367, 1367,  633, 1367,  200,  200,  200,  629,  200,  200,
-      484,  490,  485,  503,  200,  200,  200,  504,  631,  632,
-      630,  200, 1367,  200,  200,  486,  634,  487,  200,  633,
-
-      491,  635,  636,  200,  629,  200,  200,  200,  488,  200,
-      200,  637,  638,  200,  200,  492,  639,  630,  200,  200,
-     1367,  640,  486,  634,  487,  200,  641,  491,  635,  636,
-     1367, 1367,  200,  200,  200,  488,  200,  200,  637,  638,
-      200,  200,  492,  639, 1367,  200,  200,  200,  640,  200,
-      495, 1367,  200,  641,  200,  493, 1367,  200,  494,  200,
-      496, 1367,  200,  200,  642,  200,  643, 1367,  644, 1367,
-      200,  200, 1367,  200,  200,  200,  200,  495,  200,  200,
-     1367,  200,  493,  200,  200,  494,  200,  496,  497,  200,
-      200,  642,  200,  643,  200,  644,  200,  200,  200,  498,
-
-      200,  200,  200, 1367,  645,  200,  200,  200, 1367,  200,
-      200, 1367, 1367,  646,  200,  497,  647,  648, 1367,  200,
-      649,  200, 1367,  200, 1367,  650,  498,  651,  200, 1367,
-      200,  645,  200,  200,  200,  200,  200,  200,  499,  200,
-      646,  200,  200,  647,  648,  200,  200,  649,  501,  200,
-     1367,  505,  650,  652,  651,  200,  200,  200,  653,  200,
-     1367,  200,  200,  502,  200,  499,  200,  200,  654,  200,
-      657,  200,  200, 1367,  510,  501,  200,  200,  505,  200,
-      652,  200,  200,  200,  660,  653,  200,  200,  200, 1367,
-      502,  200, 1367, 1367,  200,  654, 1367,  657,  200, 1367,
-
-      655,  510, 1367, 1367,  200,  511,  200,  200,  200,  656,
-     1367,  660,  200,  200,  200,  506,  512,  200,  200,  513,
-      507,  661,  662,  200, 1367,  200,  200,  655,  508,  658,
-      200,  659,  511,  509,  200,  200,  656,  517,  200,  200,
-      663,  200,  506,  512,  200,  200,  513,  507,  661,  662,
-      200,  518,  200,  200, 1367,  508,  658,  200,  659,  200,
-      509,  200,  200,  519,  517,  200,  514,  663,  200,  200,
-      664,  665,  200,  666,  669,  515, 1367,  200,  518,  200,
-     1367,  520,  200,  516, 1367,  200,  200,  200,  200,  200,
-      519, 1367, 1367,  514, 1367,  200,  200,  664,  665,  667,
-
-      666,  669,  515,  668,  200,  200,  200,  200,  520,  200,
-      516,  200,  200,  670,  200,  522,  200,  200,  523,  200,
-      521,  200,  200,  200,  800,  200,  667,  200,  801,  200,
-      668,  200,  200, 1367,  200, 1367,  802,  803,  200,  200,
-      670,  200,  522,  804,  200,  523,  200,  521,  200,  526,
-      200,  800,  200,  200,  200,  801,  200, 1367,  200,  200,
-      200,  524,  200,  802,  803,  805,  200,  200,  200,  200,
-      804,  200,  525,  200,  806,  200,  526,  200, 1367,  527,
-      200,  200,  807,  200,  528, 1367,  200,  200,  524,  200,
-     1367,  200,  805,  200,  200, 1367,  200,  808,  200,  525,
-
-      200,  806,  200,  200,  200,  529,  527,  535,  200,  807,
-      200,  528,  200,  200,  809,  810,  534,  200,  200,  200,
-      200,  200,  200,  200,  808,  530, 1367,  200, 1367, 1367,
-      200,  811,  529, 1367,  535, 1367, 1367,  200, 1367,  200,
-      200,  809,  810,  534,  200,  812,  200,  813,  200,  200,
-      200, 1367,  530,  531,  200,  536,  200,  200,  811,  814,
-      532,  537,  200,  533,  200,  538,  200,  200, 1367,  200,
-      815,  816,  812, 1367,  813,  200,  200, 1367,  539,  817,
-      531,  818,  536,  200,  200,  200,  814,  532,  537,  200,
-      533,  540,  538,  200,  200,  200,  200,  815,  816, 1367,
-
-      200,  200,  200,  200,  200,  539,  817,  819,  818,  542,
-      200,  200,  200,  200,  674,  541,  200,  200,  540,  820,
-      200,  200,  200,  200,  821,  822,  200,  200,  200,  823,
-      824,  200,  825,  200,  819, 1367,  542,  200,  200, 1367,
-      200,  674,  541,  200,  200, 1367,  820,  200,  200, 1367,
-      200,  821,  822,  200, 1367, 1367,  823,  824, 1367,  825,
-      200,  289,  289,  289,  289,  289,  289,  289,  289,  289,
-      289,  417,  417,  417,  417,  417,  417,  417,  417,  417,
-      417,  200,  672,  200,  673,  200,  200,  200,  200,  826,
-      827,  200,  200,  200,  200, 1367,  828,  829, 1367,  830,
-
-     1367,  200,  200,  200,  200, 1367, 1367, 1367,  200,  672,
-      200,  673,  200,  200,  200,  200,  826,  827,  200,  200,
-      200,  200,  675,  828,  829,  200,  830,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-      200,  200,  200, 1367,  831,  200,  200, 1367,  676,  675,
-      832, 1367,  200,  833,  200,  834, 1367, 1367,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      677,  831,  200,  200,  200,  676,  200,  832,  200,  200,
-      833,  835,  834,  679,  200,  200,  200, 1367,  680,  200,
-      200,  836,  678,  200,  200,  200,  837,  677,  838,  200,
-
-      200,  200,  681,  200,  200,  200,  200,  839,  835,  200,
-      679,  200,  840,  200,  200,  680,  200,  200,  836,  678,
-      200,  200,  200,  837,  200,  838,  200,  200, 1367,  681,
-      200,  200, 1367,  685,  839, 1367,  200, 1367, 1367,  840,
-      200,  200,  682, 1367,  683,  200,  841,  200,  200,  200,
-      842,  200,  843, 1367,  200,  200,  844,  200,  200,  684,
-      685,  686,  200, 1367,  200,  200,  687,  200,  200,  682,
-      200,  683,  200,  841,  200,  200,  200,  842,  200,  843,
-      200,  200,  200,  844, 1367,  200,  684, 1367,  686,  200,
-      689,  200,  200,  687,  200,  200, 1367,  200,  200, 1367,
-
-      845,  200,  690,  846,  200,  200,  200,  200,  847,  688,
-      200,  200, 1367,  200,  200, 1367,  200,  689,  691,  850,
-     1367,  200, 1367,  200, 1367,  200,  200,  845,  848,  690,
-      846,  200,  851,  200,  852,  847,  688,  200,  200,  849,
-      200,  200,  200,  200,  200,  691,  850,  693,  692,  200,
-      200,  200,  853,  200,  200,  848,  200,  200,  200,  851,
-      854,  852,  857,  694,  858, 1367,  849,  200,  200,  200,
-      695,  200,  200, 1367,  693,  692,  200,  200,  200,  853,
-     1367,  200,  200,  200,  200,  200, 1367,  854,  200,  857,
-      694,  858,  696,  859,  200,  200, 1367,  695,  200,  200,
-
-      855,  856,  697,  698,  200,  860,  200,  200,  200,  200,
-      200, 1367,  861,  200,  862,  200,  200,  863,  699,  696,
-      859, 1367,  864,  200, 1367,  200,  200,  855,  856,  697,
-      698, 1367,  860,  200,  200,  200,  700,  200,  200,  861,
-      200,  862,  200,  200,  863,  699,  865,  701,  200,  864,
-      200,  200, 1367,  200,  866, 1367,  200,  200,  200, 1367,
-      200,  867,  868,  700,  869,  200,  200,  200, 1367,  200,
-     1367,  702, 1367,  865,  701,  200,  200, 1367,  200,  703,
-     1367,  866,  200,  200,  200,  200,  200,  200,  867,  868,
-     1367,  869,  200,  200,  200,  705,  870,  200,  702,  200,
-
-      200,  200,  200,  200,  200,  200,  703,  200,  704,  200,
-      706,  871,  872,  200, 1367,  200,  873,  200, 1367,  200,
-      200,  874,  705,  870,  200,  875,  200,  200,  200,  200,
-      876,  200,  200, 1367,  200,  704,  200,  706,  871,  872,
-      200,  707,  200,  873,  200,  200,  200,  200,  874,  200,
-      708, 1367,  875, 1367,  200,  200,  200,  876,  877,  200,
-      200,  200,  711,  200,  200,  200,  710,  200,  707,  200,
-      200,  200,  200,  200,  200, 1367,  200,  708,  709, 1367,
-      200,  200,  200,  200,  200,  877,  200,  200,  200,  711,
-      200,  200,  200,  710,  878,  879,  200,  200,  200, 1367,
-
-      200,  200,  200,  880,  200,  709,  714,  200,  712,  200,
-      200,  200,  881,  200,  200,  200,  200,  200,  882,  883,
-      713,  878,  879,  884,  715,  200,  200,  200,  200,  200,
-      880,  200,  200,  714, 1367,  712,  200,  200,  200,  881,
-      200,  200,  200,  200,  885,  882,  883,  713,  200,  886,
-      884,  715,  200,  200,  716,  200,  200,  887,  888,  200,
-      717,  200, 1367,  889,  200,  200,  200,  890,  718,  200,
-      200,  885,  891,  200, 1367,  200,  886,  719,  892,  200,
-      200,  716,  893,  200,  887,  888, 1367,  717,  200,  200,
-      889,  200, 1367,  200,  890,  718,  200,  200, 1367,  891,
-
-      200,  720,  721,  200,  719,  892,  200,  200,  200,  893,
-     1367,  894,  200,  200,  200,  895,  200, 1367,  896,  200,
-     1367, 1367,  897, 1367,  200,  200, 1367,  200,  720,  721,
-      200, 1367,  200, 1367,  722,  200, 1367,  200,  894,  200,
-      200,  200,  895,  200,  723,  896,  200,  724,  200,  897,
-      200,  200,  200,  200,  200,  200,  998, 1367,  200,  200,
-      200,  722,  200,  200,  200, 1367,  999, 1367,  200, 1367,
-      200,  723, 1000,  725,  724,  200, 1001,  200,  200, 1367,
-      200, 1002,  200,  998,  200,  200, 1003,  200,  200,  200,
-      200, 1367,  200,  999,  200,  200,  200,  726,  727, 1000,
-
-      725, 1367,  200, 1001,  200,  200,  200, 1367, 1002, 1367,
-      200,  200,  200, 1003, 1004,  200,  728, 1367,  729,  200,
-     1005,  200,  200,  200,  726,  727,  200, 1367,  200,  200,
-      730,  200,  731,  200,  200, 1006,  200,  200,  200,  200,
-      200, 1004,  200,  728,  732,  729, 1007, 1005,  200,  200,
-      200, 1367,  200,  200,  733,  200,  200,  730, 1367,  731,
-      200,  200, 1006,  200,  200,  200,  200,  200, 1008,  200,
-     1009,  732,  734, 1007, 1010,  200,  200,  200,  200,  200,
-      735,  733,  200,  200,  200,  200, 1367,  200, 1011,  200,
-      200,  200, 1367,  200,  200, 1008, 1367, 1009, 1012,  734,
-
-      737, 1010, 1367,  200,  200,  200,  200,  735,  200,  200,
-      200,  200,  200,  200,  736, 1011,  200,  200,  200,  200,
-      200,  200,  200,  738,  742, 1012,  200,  737, 1013,  200,
-     1367,  200,  200,  200, 1367,  200, 1014,  200, 1015,  200,
-      200,  736,  200,  739,  200,  200,  200,  200,  200,  200,
-      738,  742, 1016,  200,  200, 1013,  200,  200,  200,  200,
-      743,  200,  200, 1014,  200, 1015,  200,  200,  200,  200,
-      739,  200,  745, 1367, 1017,  200, 1367,  200,  200, 1016,
-     1018,  200, 1367, 1019,  200,  200, 1367,  743,  200,  200,
-     1020,  200,  740,  200,  200,  200,  200,  200, 1367,  745,
-
-      200, 1017,  741,  200,  200,  200,  200, 1018, 1021,  744,
-     1019, 1367, 1022,  200, 1367, 1367,  200, 1020,  200,  740,
-      200,  200,  200,  200,  200,  200, 1023,  200,  200,  741,
-      200,  200, 1024,  200,  746, 1021,  744, 1025,  200, 1022,
-      200,  200,  747,  200, 1026,  200,  200, 1367,  200,  200,
-      200, 1027,  200, 1023, 1367,  200,  200, 1028,  200, 1024,
-      748,  746,  200, 1367, 1025,  200,  200,  200,  200,  747,
-     1029, 1026,  200,  200,  200, 1367,  200,  200, 1027, 1367,
-      749,  200, 1030,  200, 1028, 1367,  200,  748,  200,  200,
-      200, 1031,  751,  200,  200,  750,  200, 1029, 1367,  200,
-
-      200,  200,  200,  200, 1367, 1032,  752,  749,  200, 1030,
-      200, 1033,  200,  200, 1367,  200,  200,  200, 1031,  751,
-     1367,  200,  750,  200, 1034,  200,  200,  200,  200,  200,
-      756,  200, 1032,  752,  753,  200, 1367,  200, 1033,  200,
-      200,  200, 1367,  200, 1037, 1038, 1367,  761,  200,  200,
-     1367, 1034,  200,  200,  200,  200, 1367,  756,  200,  200,
-     1039,  753,  200,  200,  759,  200, 1367,  200,  200,  754,
-      200, 1037, 1038,  200,  761,  200,  200,  200, 1040, 1367,
-     1041,  200, 1035,  200, 1042, 1036,  200, 1039,  755, 1043,
-      200,  759,  200,  200, 1367, 1044,  754,  200, 1045, 1046,
-
-      200,  760,  200, 1367,  200, 1040,  200, 1041,  200, 1035,
-      200, 1042, 1036,  200, 1047,  755, 1043, 1048,  200,  762,
-      200,  757, 1044,  200, 1049, 1045, 1046, 1367,  760,  200,
-      200, 1367,  200,  200,  758,  200, 1050,  200, 1051,  200,
-      200, 1047,  200, 1367, 1048,  200,  762, 1367,  757, 1052,
-      200, 1049, 1053, 1367,  763, 1367,  200,  200,  200,  200,
-     1367,  758,  200, 1050,  200, 1051,  200,  200,  200,  200,
-      200,  200, 1054,  765,  200, 1367, 1052,  200,  200, 1053,
-      200,  763,  764, 1367,  766,  200,  200,  200, 1367,  200,
-      200,  200, 1055, 1367,  200,  200,  200,  200,  200, 1054,
-
-      765,  200,  768, 1367,  200,  200,  200,  200,  200,  764,
-      200,  766,  200,  200,  200,  767, 1056,  200,  200, 1055,
-      200,  200,  200,  200,  770,  200,  200, 1057,  200,  768,
-      200,  769, 1058,  200,  200,  200,  200,  200,  774,  200,
-      200,  200,  767, 1056,  200,  200,  200,  200,  200,  200,
-      200,  770,  200,  200, 1057,  200,  200,  200,  769, 1058,
-      200,  200, 1059,  200, 1060,  774,  200,  200,  200,  771,
-      200,  200,  200,  200,  200,  200,  200,  200, 1061,  200,
-      200, 1062, 1063,  200, 1064,  200,  773,  200,  772, 1059,
-      200, 1060,  200,  200,  200,  200,  771,  200, 1065,  200,
-
-      775,  200,  200,  200,  200, 1061,  200,  200, 1062, 1063,
-     1367, 1064,  200,  773, 1367,  772,  200,  200,  200,  200,
-     1066,  200,  200,  200,  776, 1065,  200,  775,  200, 1067,
-      777,  200,  200, 1068,  200, 1069,  200,  200,  778, 1070,
-     1071,  200,  200,  200, 1148,  200,  200, 1066, 1367, 1367,
-      200,  776, 1367, 1367, 1367,  200, 1067,  777, 1367,  200,
-     1068,  200, 1069,  200,  200,  778, 1070, 1071,  200,  200,
-      200, 1148,  200,  200,  200,  781,  780,  200,  779,  200,
-      200,  200,  200, 1149,  200,  200,  200, 1367, 1150, 1367,
-      200, 1151, 1152, 1153, 1367,  200, 1367,  200, 1154,  200,
-
-      200,  200,  781,  780,  200,  779,  200,  200,  200,  200,
-     1149,  200,  200,  200,  200, 1150,  782,  200, 1151, 1152,
-     1153,  200,  200,  783,  200, 1154,  200,  200,  200, 1367,
-      200, 1155,  784, 1367,  785, 1156, 1157,  200, 1158, 1367,
-     1159,  200,  200,  782,  200, 1160, 1161, 1367,  200, 1367,
-      783,  200, 1367,  200, 1162,  200,  200,  200, 1155,  784,
-      200,  785, 1156, 1157,  200, 1158,  786, 1159,  787,  200,
-      200,  200, 1160, 1161,  200, 1367,  200,  200,  789,  790,
-      788, 1162,  200,  200,  200, 1367,  200,  200, 1163,  200,
-      200, 1367,  200,  786, 1367,  787, 1367,  200, 1367, 1367,
-
-     1367,  200,  200,  200,  200,  789,  790,  788, 1367,  200,
-     1164,  200,  792,  200, 1165, 1163,  200,  200,  200,  200,
-      200,  200, 1166,  200,  200,  200,  200,  791,  200,  200,
-      200,  200, 1367,  200, 1367,  793,  200, 1164, 1167,  792,
-     1367, 1165, 1168, 1367, 1367,  200, 1367,  200,  200, 1166,
-      200,  200,  200,  200,  791,  200, 1169,  200,  200,  200,
-      200,  200,  793,  200, 1170, 1167,  200,  794,  200, 1168,
-      795,  200, 1171,  797,  796,  200, 1367,  200, 1367,  200,
-      200, 1172, 1367, 1169,  200, 1367,  200, 1367,  200,  200,
-     1173, 1170, 1367,  200,  794,  200, 1367,  795,  200, 1171,
-
-      797,  796,  200,  200,  200,  200,  200,  200, 1172,  798,
-      200,  200,  200, 1174,  200,  200,  200, 1173,  899,  200,
-     1367,  200, 1175,  200,  200, 1367, 1367,  900,  200, 1367,
-      200, 1176,  200,  200, 1367, 1367,  798,  200, 1367,  200,
-     1174,  200,  200,  200, 1367,  899,  200,  200,  200, 1175,
-      200,  200,  200,  200,  900,  200,  200, 1177, 1176,  200,
-      200,  904,  200,  901, 1178,  200,  200, 1179, 1180,  200,
-      200,  200,  902, 1181,  200,  200, 1367,  905,  903,  200,
-      200,  200, 1367,  200, 1177,  200,  200,  200,  904,  200,
-      901, 1178,  200,  200, 1179, 1180,  200,  200,  200,  902,
-
-     1181, 1182,  200,  907,  905,  903, 1367,  200,  200,  200,
-     1367,  906,  200,  200,  200,  200,  200, 1183, 1367,  200,
-     1367,  200, 1367,  200,  200,  200, 1184, 1185, 1182, 1186,
-      907, 1187, 1367,  908,  200,  200,  200,  200,  906, 1188,
-      200,  200,  200,  200, 1183,  200,  200,  200,  200,  200,
-      200, 1189,  200, 1184, 1185,  200, 1186,  200, 1187,  200,
-      908, 1190,  200,  200,  200,  200, 1188,  909,  200,  200,
-     1367,  200,  200, 1191,  200,  200,  200, 1192, 1189,  200,
-     1367,  200,  200, 1240,  200,  200,  200, 1242, 1190,  200,
-      200,  200,  200,  910,  909,  200,  200,  200,  200, 1243,
-
-     1191,  911,  200, 1244, 1192,  200,  200,  200,  200, 1367,
-     1240,  200,  200, 1367, 1242,  200,  200,  200,  200, 1367,
-      910,  200,  200,  200,  200,  200, 1243,  200,  911,  200,
-     1244,  200,  200,  200,  200,  200,  912, 1245,  200,  200,
-      913,  200,  200,  200,  200,  200,  914, 1246,  200,  915,
-      200,  200,  200,  200,  200, 1367,  200, 1367,  200,  200,
-      200,  200,  200,  912, 1245,  200,  200,  913,  200,  200,
-      200,  200,  200,  914, 1246,  200,  915, 1367,  200,  200,
-      200,  200,  917, 1367,  200,  200,  200,  200,  200,  200,
-      916,  924,  200, 1247,  200,  200,  200,  200,  200, 1367,
-
-     1248, 1367,  200,  200,  918,  200,  200,  200,  200,  917,
-      200,  200,  200, 1249,  200,  200,  200,  916,  924, 1367,
-     1247,  200,  200, 1250,  200, 1251,  200, 1248,  200, 1252,
-      200,  918,  200,  200,  200,  919, 1253,  200,  200,  200,
-     1249,  200,  200, 1254, 1367, 1255,  200,  920, 1256, 1367,
-     1250,  200, 1251,  200, 1367,  200, 1252, 1367,  921, 1367,
-      200, 1257,  919, 1253, 1258,  200,  200, 1259,  200,  200,
-     1254,  200, 1255,  200,  920, 1256,  200,  200,  200,  200,
-     1367,  200, 1260,  922,  200,  921,  923, 1261, 1257,  200,
-     1262, 1258, 1367, 1367, 1259,  200,  200,  200,  200, 1367,
-
-     1288, 1290,  200,  200,  200, 1291,  200,  200,  200, 1260,
-      922,  200, 1367,  923, 1261, 1292,  200, 1262,  925,  200,
-      200,  200,  200, 1293,  200,  200,  200, 1288, 1290,  200,
-      200,  200, 1291, 1294,  200, 1241, 1241,  200, 1367,  200,
-     1295, 1296, 1292, 1367,  200,  925,  200,  200,  200,  200,
-     1293, 1297,  200,  200, 1367,  926, 1298,  200,  200, 1299,
-     1294, 1300, 1367,  200,  200,  200,  200, 1295, 1296, 1317,
-      200,  200, 1318, 1289, 1319,  200,  200,  200, 1297,  200,
-     1367,  927,  926, 1298,  200, 1367, 1299, 1367, 1300,  200,
-      200,  200,  200,  200, 1367,  928, 1317,  200,  200, 1318,
-
-     1289, 1319,  200,  200,  200,  200,  200,  200,  927, 1320,
-     1367,  200,  200, 1321,  929, 1367,  200,  200,  200,  200,
-      200,  200,  928, 1367,  931,  200,  200,  930, 1367, 1324,
-      200,  200,  200, 1367,  200,  200, 1320,  200, 1367,  200,
-     1321,  929,  200, 1331,  200,  933,  200,  200,  200,  200,
-      932,  931, 1367,  200,  930,  200, 1324, 1332,  200, 1316,
-     1316,  200,  200,  200,  200,  200, 1367, 1367,  200,  200,
-     1331,  200,  933,  200,  200,  200,  200,  932, 1367,  200,
-     1335,  200,  200,  200, 1332, 1338, 1367, 1340,  200,  200,
-      200,  200,  200,  200,  934,  200, 1367,  200,  200,  200,
-
-      200, 1330,  200,  935, 1367,  200,  200, 1335,  200,  936,
-      200, 1342, 1338,  200, 1340,  200,  200, 1344,  200,  937,
-      200,  934, 1367,  200,  200,  200,  200,  200, 1330, 1346,
-      935,  200,  200,  200, 1367,  200,  936, 1348, 1342, 1350,
-      200,  200,  200,  200, 1344,  200,  937, 1352, 1367,  200,
-      200,  200,  200,  938,  200,  200, 1346,  200,  200, 1367,
-      200,  200,  200, 1354, 1348,  200, 1350,  200,  200, 1367,
-      200, 1356,  200, 1367, 1352,  200,  200,  200,  200,  200,
-      938, 1358,  200,  200,  200,  200,  939,  200,  200,  200,
-     1354,  940,  200,  200,  200,  200,  200, 1367, 1356, 1323,
-
-     1316,  200,  200,  200,  200, 1367,  200, 1360, 1358, 1367,
-      200,  942,  200,  939,  200,  200,  200,  200,  940,  200,
-      200,  200,  200,  200,  200,  200, 1367,  200,  200,  200,
-      200,  200,  941,  200, 1360,  200, 1367,  200,  942, 1367,
-      200, 1334,  200, 1367,  200,  944,  200, 1367,  200, 1367,
-     1367,  200,  200,  200,  200, 1367,  200,  200,  200,  941,
-      200, 1367,  200,  200,  200, 1367,  943,  200, 1334,  200,
-     1367,  200,  944,  200, 1367,  945,  200, 1367, 1367, 1367,
-      200,  200, 1265, 1241,  200,  200, 1367,  200, 1367, 1367,
-      200,  946,  200,  943, 1367, 1367,  200,  200,  200,  200,
-
-      200,  200,  945,  200, 1367, 1367,  200, 1367,  200, 1367,
-     1367,  200,  200, 1367,  200, 1367, 1367, 1367,  946,  200,
-     1303, 1367, 1367, 1367,  200,  947,  200,  949,  200,  200,
-      200, 1367,  200,  200,  200, 1367,  948,  200,  200,  200,
-     1367,  200,  200,  200, 1367, 1367, 1367, 1303,  200, 1367,
-     1367, 1367,  947,  200,  949, 1367,  200,  200, 1367,  200,
-      200,  200,  200,  948,  200, 1367,  200,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200, 1367,  200, 1367,
-      200,  200,  950,  200, 1367, 1367,  200,  200, 1367,  200,
-      200, 1367,  200, 1367,  200, 1367, 1367,  200,  200,  200,
-
-      200,  200,  200,  200,  951,  200,  200, 1367,  200,  950,
-      200,  200, 1367,  200, 1367, 1367,  200,  200, 1367,  200,
-     1367, 1367,  952, 1367,  200, 1367,  200, 1367, 1367,  200,
-      200,  951,  200,  200,  200,  953, 1367, 1367,  200,  200,
-      200, 1367,  200,  200,  200,  200,  200, 1367, 1367,  952,
-      200,  954,  955,  200,  956,  200,  200,  200,  200,  200,
-      200,  200,  953, 1367, 1367,  200,  200,  200, 1367,  200,
-      200,  200,  200,  200, 1367, 1367, 1367,  200,  954,  955,
-     1367,  956,  200,  200,  200,  200,  200,  200, 1367,  200,
-      957,  200,  200,  958,  200, 1367,  200,  200,  200,  200,
-
-      959, 1367,  200,  200,  200,  975,  200, 1367, 1367,  200,
-      200,  200,  200,  200,  200,  200,  200,  957,  200, 1367,
-      958,  200,  200,  200,  960,  200,  200,  959,  200,  200,
-      200,  200,  975,  200,  200, 1367,  200,  200, 1367,  200,
-     1367,  200,  200,  200,  200, 1367, 1367,  200, 1367,  200,
-     1367,  960, 1367,  200, 1367,  200,  961,  978, 1367,  200,
-     1367,  200,  200,  200,  200, 1367,  200, 1367, 1367,  200,
-      200,  200,  200, 1367,  200,  962, 1367,  200, 1367, 1367,
-      200,  200,  200,  961,  978, 1367,  200,  200, 1367,  200,
-      200,  200, 1367,  200, 1367, 1367,  200,  200, 1367,  200,
-
-     1367, 1367,  962,  200,  200, 1367,  200,  200,  200,  200,
-      964,  963, 1367,  200,  200,  200,  200, 1367, 1367,  200,
-     1367, 1367, 1367,  200,  200,  200,  200, 1367, 1367, 1367,
-      200, 1367, 1367,  200,  200,  200, 1367,  964,  963, 1367,
-      200,  965,  200,  200, 1367,  200,  200, 1367, 1367, 1367,
-      200,  200,  200,  200, 1367,  966,  967, 1367, 1367,  200,
-      200,  200,  200,  200,  200, 1367, 1367, 1367,  965,  200,
-      200, 1367,  200, 1367, 1367, 1367, 1367, 1367,  200,  200,
-      200, 1367,  966,  967, 1367,  968,  200,  200,  200,  200,
-      200,  200, 1367, 1367,  200,  200,  200,  200,  200, 1367,
-
-     1367, 1367, 1367, 1367,  200,  200,  200,  200, 1367, 1367,
-     1367, 1367,  968,  200,  200, 1367,  200,  200, 1367, 1367,
-     1367,  200,  200,  200, 1367,  200,  969, 1367, 1367, 1367,
-     1367,  200,  200,  200, 1367,  200, 1367, 1367,  200,  200,
-      200,  200,  200,  970,  200,  200, 1367, 1367,  200, 1367,
-      200,  971, 1367,  969, 1367,  200, 1367, 1367,  200, 1367,
-      200, 1367,  200, 1367,  200,  200,  200,  200,  200,  200,
-      970,  200,  200,  973,  200,  200,  200,  200,  971,  972,
-      200, 1367,  200, 1367,  200,  200,  200,  200, 1367,  200,
-     1367,  200, 1367,  200,  200,  200,  200,  974,  200,  200,
-
-      973,  200, 1367,  200,  200, 1367,  972,  200, 1367,  200,
-     1367,  200, 1367,  200,  200,  977,  200, 1367,  976,  200,
-      200, 1367, 1367,  200,  974,  200,  200,  200,  200,  200,
-     1367, 1367,  200,  200,  200,  200,  200,  200,  200,  200,
-     1367, 1367,  977,  200, 1367,  976,  200,  979,  200, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-      200, 1367,  981,  980,  979,  200,  200,  200,  200,  200,
-      200,  200,  200, 1367,  200, 1367, 1367,  982, 1367,  200,
-     1367,  200,  200, 1367,  200,  200,  200,  200, 1367,  981,
-
-      980,  200, 1367,  200,  200, 1367,  200, 1367,  200,  200,
-     1367,  200, 1367,  200,  982, 1367,  200,  200,  200,  200,
-     1367, 1367,  200,  200,  200,  200, 1367,  200,  200,  200,
-     1367,  200,  983,  200, 1367, 1367,  984,  200,  200, 1367,
-      200,  200, 1367, 1367,  200, 1367, 1367, 1367, 1367, 1367,
-      200, 1367,  200, 1367,  200,  200,  200,  200,  200,  983,
-      200, 1367,  200,  984,  200,  985, 1367,  200,  200, 1367,
-     1367,  200, 1367,  200,  200,  992,  200, 1367,  200,  200,
-      986,  200,  200,  200,  200,  200,  200, 1367, 1367,  200,
-     1367, 1367,  985, 1367,  200,  200, 1367,  200,  200,  987,
-
-      200,  200,  992,  200,  200,  200,  200,  986,  200,  200,
-      200, 1367,  200,  200, 1367, 1367,  200, 1367,  200,  989,
-     1367, 1367,  200,  200,  200,  988,  987,  200,  200,  200,
-      200,  200,  200, 1367,  200,  990,  200,  200, 1367,  200,
-     1367, 1367,  200,  200, 1367,  200,  989, 1367, 1367, 1367,
-      200, 1367,  988,  991,  200,  200,  200,  200,  200,  200,
-      200,  200,  990,  200,  200,  200,  200,  200,  200,  200,
-      200,  993,  200,  200, 1367, 1367, 1367, 1367,  200, 1367,
-      991, 1367, 1367,  200, 1367,  200, 1367,  200,  200, 1367,
-      200, 1367,  200, 1367,  200,  200, 1367,  200,  993,  200,
-
-      200, 1367,  200,  200,  995,  200,  200,  200,  200, 1367,
-      200, 1367,  200,  200,  200,  200,  200, 1367,  994, 1367,
-      200, 1367,  200,  200,  200,  200,  200,  200, 1367,  200,
-      200,  995,  996,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1367,  200, 1367,  994, 1367,  200, 1367,  200,
-      200,  200,  200,  200,  200,  200, 1367,  200,  200,  996,
-      200, 1367,  200,  200,  200,  200,  200,  200,  200,  200,
-      200,  200, 1367,  200, 1367, 1367,  200, 1367,  200, 1367,
-     1073,  200,  200, 1367,  200,  200, 1367,  200, 1367,  200,
-     1367, 1367,  200,  200,  200,  200,  200,  200,  200, 1367,
-
-      200, 1367, 1074,  200, 1367,  200,  200, 1073,  200, 1367,
-      200, 1075,  200, 1367,  200,  200, 1367, 1367, 1367, 1367,
-      200,  200,  200, 1367, 1367, 1367, 1367, 1367, 1367, 1074,
-      200,  200, 1367,  200, 1367, 1367,  200,  200, 1075,  200,
-      200,  200,  200, 1367, 1367, 1367,  200,  200,  200,  200,
-     1367, 1076, 1367, 1367, 1078,  200,  200,  200,  200,  200,
-     1077, 1367, 1367,  200,  200,  200, 1367,  200,  200, 1367,
-     1367, 1367, 1367,  200,  200,  200, 1367, 1367, 1076, 1367,
-     1367, 1078,  200,  200,  200, 1367,  200, 1077, 1079, 1367,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1080,  200,
-
-      200,  200,  200,  200,  200, 1081, 1367, 1367,  200,  200,
-      200,  200, 1367, 1367, 1367, 1079, 1367,  200,  200, 1367,
-     1367,  200,  200,  200,  200, 1080,  200,  200, 1082, 1367,
-      200,  200, 1081, 1367, 1367,  200,  200,  200,  200, 1367,
-     1083,  200,  200, 1084,  200,  200,  200, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1082, 1367, 1367, 1085, 1367,
-      200, 1367,  200, 1367,  200,  200, 1367, 1083,  200,  200,
-     1084,  200,  200,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1086, 1367, 1367, 1085, 1087,  200, 1367,  200,
-      200,  200,  200, 1367,  200, 1088, 1367,  200, 1367,  200,
-
-      200,  200,  200,  200, 1367, 1367, 1367,  200, 1089, 1086,
-      200, 1367,  200, 1087, 1367, 1367,  200,  200,  200,  200,
-      200,  200, 1088, 1367,  200, 1367,  200,  200,  200,  200,
-     1367, 1367, 1367, 1367,  200, 1089,  200,  200,  200,  200,
-     1367, 1367, 1090,  200, 1367,  200,  200,  200,  200, 1367,
-      200, 1367,  200,  200, 1092,  200,  200, 1367,  200,  200,
-     1367, 1091, 1367,  200,  200,  200,  200, 1367, 1367, 1090,
-     1093, 1367,  200,  200,  200,  200, 1094,  200, 1367,  200,
-      200, 1092,  200,  200, 1367,  200,  200, 1367, 1091, 1367,
-      200,  200,  200,  200, 1095, 1367,  200, 1093,  200,  200,
-
-      200,  200, 1367, 1094,  200, 1367,  200,  200, 1367,  200,
-     1367, 1096, 1367, 1367,  200, 1367,  200,  200, 1367,  200,
-      200, 1095, 1367,  200,  200,  200, 1367,  200, 1367, 1367,
-      200,  200,  200,  200,  200, 1097, 1367, 1367, 1096, 1098,
-      200,  200, 1367,  200,  200,  200, 1100,  200,  200, 1099,
-      200,  200,  200, 1367,  200,  200, 1367,  200,  200,  200,
-      200,  200, 1097, 1367, 1367,  200, 1098,  200,  200, 1367,
-      200,  200,  200, 1100,  200,  200, 1099,  200,  200,  200,
-     1367,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-      200, 1102,  200,  200,  200,  200,  200,  200, 1367,  200,
-
-     1104,  200,  200, 1367, 1101,  200,  200,  200, 1367,  200,
-     1367,  200,  200,  200, 1367,  200,  200,  200, 1102,  200,
-      200,  200, 1367,  200, 1367,  200,  200, 1104, 1367,  200,
-     1103, 1101, 1367,  200,  200,  200,  200, 1367,  200,  200,
-      200,  200,  200,  200, 1106, 1105,  200, 1367,  200,  200,
-      200,  200,  200,  200, 1367, 1367,  200, 1103, 1367, 1367,
-     1367,  200,  200, 1367, 1367,  200, 1367,  200,  200, 1367,
-      200, 1106, 1105, 1367, 1367,  200,  200,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-     1107,  200,  200,  200,  200,  200, 1367,  200, 1367, 1367,
-
-      200, 1367, 1367, 1367, 1367,  200,  200, 1367,  200,  200,
-     1367,  200,  200,  200,  200, 1367,  200, 1107,  200,  200,
-      200,  200,  200,  200,  200,  200, 1367,  200, 1367, 1109,
-      200, 1108,  200,  200,  200,  200,  200, 1367, 1367,  200,
-     1367, 1110, 1367, 1367, 1111, 1367,  200, 1367, 1367,  200,
-      200, 1367,  200, 1367, 1367, 1367, 1109,  200, 1108, 1367,
-      200,  200,  200,  200, 1367, 1112,  200,  200, 1110, 1367,
-     1367, 1111,  200,  200, 1367, 1367,  200,  200,  200,  200,
-      200,  200, 1367, 1367, 1367,  200,  200, 1367, 1367, 1367,
-      200,  200, 1112, 1367,  200, 1367, 1367, 1367, 1367,  200,
-
-     1367, 1113, 1367, 1367,  200,  200,  200,  200,  200,  200,
-     1367,  200,  200,  200, 1367, 1367,  200,  200,  200, 1367,
-      200,  200,  200,  200, 1367,  200, 1367,  200, 1113, 1367,
-      200, 1367,  200, 1367, 1367,  200,  200, 1367,  200, 1367,
-     1367, 1114, 1367,  200, 1367,  200, 1367,  200,  200,  200,
-      200,  200,  200,  200,  200,  200, 1116,  200, 1367,  200,
-     1115,  200,  200, 1367, 1367,  200, 1367,  200, 1114,  200,
-     1367, 1367,  200, 1367,  200, 1367, 1367, 1367,  200,  200,
-      200, 1367,  200, 1116, 1367, 1367, 1367, 1115,  200, 1367,
-     1367,  200,  200,  200,  200, 1367,  200, 1367,  200, 1117,
-
-      200,  200,  200,  200, 1367, 1118,  200,  200, 1119,  200,
-     1367,  200,  200, 1367, 1367, 1367,  200, 1367,  200, 1367,
-      200,  200, 1367, 1367, 1367,  200, 1117,  200, 1367,  200,
-      200, 1367, 1118, 1367,  200, 1119,  200, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1120,  200,  200,  200,  200,
-     1367,  200,  200, 1367, 1367,  200,  200, 1367, 1367, 1367,
-      200, 1367, 1367, 1367,  200,  200, 1367,  200, 1367,  200,
-      200,  200, 1120,  200,  200, 1121,  200, 1367,  200,  200,
-      200, 1367,  200,  200, 1122,  200,  200,  200, 1367,  200,
-      200,  200,  200, 1367, 1367,  200,  200,  200, 1367, 1123,
-
-     1367, 1367, 1121, 1367, 1367,  200,  200,  200, 1367, 1367,
-     1367, 1122,  200,  200,  200,  200,  200,  200,  200,  200,
-     1367, 1367,  200,  200,  200,  200, 1123, 1124, 1367, 1367,
-     1367, 1367,  200,  200,  200,  200, 1367, 1367, 1367, 1125,
-     1126,  200,  200,  200,  200,  200,  200, 1367, 1367,  200,
-      200,  200,  200,  200, 1124, 1367, 1367, 1127, 1367,  200,
-      200,  200,  200,  200, 1128,  200, 1125, 1126,  200,  200,
-      200,  200,  200,  200, 1367,  200,  200,  200,  200, 1367,
-      200, 1367, 1367, 1367, 1127,  200,  200,  200,  200, 1129,
-      200, 1128,  200,  200,  200,  200,  200,  200,  200,  200,
-
-      200, 1367,  200,  200,  200,  200, 1130,  200, 1367, 1131,
-     1367,  200,  200,  200,  200,  200, 1129,  200, 1367,  200,
-      200,  200,  200,  200,  200,  200, 1132,  200, 1367,  200,
-      200,  200,  200, 1130,  200, 1367, 1131, 1367,  200,  200,
-      200,  200,  200, 1367,  200, 1367,  200, 1133,  200,  200,
-      200, 1367,  200, 1132,  200, 1367,  200, 1134,  200,  200,
-      200,  200,  200, 1367, 1367,  200,  200, 1135,  200,  200,
-     1367,  200,  200, 1367, 1133,  200, 1367, 1367, 1367,  200,
-     1367,  200, 1367, 1367, 1134,  200, 1367,  200,  200,  200,
-     1367, 1367,  200, 1367, 1135,  200, 1367, 1367,  200,  200,
-
-      200, 1367,  200,  200, 1367,  200, 1136,  200,  200, 1367,
-      200, 1137,  200, 1138, 1367,  200,  200, 1367, 1140, 1367,
-     1367, 1367, 1367,  200,  200, 1367,  200,  200,  200,  200,
-      200,  200,  200, 1136,  200, 1367,  200,  200, 1137,  200,
-     1138, 1139,  200,  200, 1367, 1140, 1367, 1367, 1367, 1367,
-      200,  200,  200,  200,  200,  200, 1367, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1141, 1367,  200, 1139,  200,
-     1143, 1367,  200, 1367,  200,  200, 1367, 1142,  200,  200,
-      200,  200,  200, 1367, 1367,  200,  200,  200,  200,  200,
-      200,  200, 1141, 1367,  200, 1367,  200, 1143,  200,  200,
-
-     1367,  200,  200, 1367, 1142,  200,  200,  200, 1367,  200,
-      200,  200,  200,  200, 1367,  200,  200,  200, 1144, 1367,
-     1367, 1145, 1367,  200, 1367,  200,  200, 1367, 1367, 1367,
-     1367, 1367,  200,  200,  200, 1367, 1367,  200,  200,  200,
-      200, 1367, 1367,  200,  200, 1144, 1367, 1146, 1145, 1367,
-      200, 1367, 1367,  200, 1367,  200, 1367,  200,  200,  200,
-      200,  200,  200, 1367, 1367,  200,  200,  200, 1367, 1367,
-      200,  200, 1367, 1367, 1146, 1367,  200, 1367,  200, 1367,
-     1367, 1367,  200,  200,  200,  200, 1194,  200,  200,  200,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1367, 1367,
-
-      200,  200, 1195,  200, 1367,  200,  200,  200, 1367, 1367,
-      200,  200,  200, 1194,  200,  200,  200,  200,  200, 1367,
-     1367,  200,  200,  200, 1367, 1367,  200,  200,  200, 1195,
-      200, 1367, 1196,  200,  200, 1367, 1197,  200,  200,  200,
-      200,  200,  200,  200, 1367,  200,  200, 1367,  200,  200,
-     1367, 1367, 1367,  200, 1367,  200,  200,  200, 1367, 1196,
-     1198, 1367, 1367, 1197,  200,  200, 1367,  200,  200,  200,
-      200, 1367,  200,  200, 1367, 1199,  200,  200, 1367,  200,
-      200, 1367,  200,  200,  200, 1367, 1200, 1198,  200,  200,
-     1367, 1367,  200,  200, 1367,  200, 1367,  200,  200, 1367,
-
-     1367, 1367, 1199, 1367,  200, 1367,  200,  200, 1367, 1367,
-      200,  200,  200, 1200, 1367,  200,  200,  200, 1367,  200,
-      200,  200,  200, 1367, 1367,  200,  200, 1201,  200, 1202,
-      200,  200, 1367, 1367, 1367,  200, 1367,  200, 1367,  200,
-      200, 1367, 1367, 1367,  200, 1367,  200, 1367,  200,  200,
-     1203, 1367, 1367,  200, 1201,  200, 1202,  200,  200,  200,
-     1367,  200,  200, 1204, 1367,  200,  200,  200, 1367, 1367,
-      200,  200,  200, 1367,  200,  200, 1367, 1203, 1367,  200,
-     1205, 1367, 1367, 1367,  200, 1367,  200, 1367,  200, 1367,
-     1204, 1367,  200,  200, 1367, 1367, 1367,  200,  200,  200,
-
-     1367,  200,  200,  200, 1206,  200,  200, 1205, 1367, 1367,
-      200,  200, 1367, 1367,  200,  200,  200,  200, 1367,  200,
-     1367,  200, 1367, 1367,  200, 1367,  200, 1367, 1367,  200,
-      200, 1206,  200, 1367, 1367, 1367, 1207,  200, 1367, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-     1367,  200,  200,  200, 1367, 1367,  200,  200,  200,  200,
-      200, 1208, 1367, 1207, 1367,  200,  200, 1367, 1367, 1367,
-      200,  200,  200, 1367,  200, 1367, 1367, 1367, 1367,  200,
-     1367, 1367, 1367, 1367,  200,  200,  200,  200, 1208,  200,
-     1367,  200,  200,  200, 1367, 1209,  200,  200,  200,  200,
-
-      200,  200,  200, 1367,  200,  200, 1367,  200,  200, 1367,
-     1367, 1367,  200, 1367,  200,  200,  200, 1367,  200, 1367,
-     1367, 1367, 1209,  200,  200, 1367,  200,  200,  200,  200,
-     1367,  200,  200, 1367,  200,  200,  200, 1367, 1210,  200,
-      200,  200,  200,  200, 1212,  200, 1367,  200,  200, 1367,
-      200,  200,  200, 1211,  200, 1367, 1213,  200, 1367, 1367,
-      200,  200, 1367,  200, 1367, 1210,  200,  200, 1367, 1367,
-      200, 1212,  200, 1367,  200,  200, 1367,  200, 1367,  200,
-     1211,  200, 1367, 1213,  200, 1367, 1367,  200,  200,  200,
-      200,  200,  200,  200, 1367, 1367,  200,  200,  200, 1367,
-
-      200,  200,  200, 1367, 1367,  200, 1367, 1367, 1367, 1367,
-      200, 1367, 1367, 1367, 1367, 1367,  200,  200,  200,  200,
-     1367, 1367, 1367,  200,  200,  200, 1367,  200,  200,  200,
-     1367,  200,  200,  200,  200, 1367,  200,  200,  200, 1367,
-      200,  200,  200,  200, 1367, 1367,  200,  200, 1367, 1367,
-     1367, 1367,  200, 1367, 1367, 1367, 1367, 1367,  200, 1367,
-      200,  200, 1367,  200, 1367,  200, 1367,  200,  200,  200,
-      200, 1367, 1367,  200,  200,  200, 1215,  200, 1367,  200,
-      200, 1214,  200, 1367, 1367, 1367,  200,  200, 1367, 1367,
-      200, 1216, 1367, 1367,  200,  200,  200, 1367, 1367,  200,
-
-      200, 1367,  200, 1215,  200,  200, 1367,  200, 1214,  200,
-      200, 1367, 1367,  200,  200,  200, 1367,  200, 1216, 1367,
-      200,  200,  200,  200,  200, 1367,  200,  200, 1367,  200,
-      200,  200,  200, 1367, 1367, 1367, 1217,  200, 1367, 1367,
-      200,  200,  200,  200, 1367,  200, 1367,  200, 1367, 1367,
-      200,  200, 1218, 1367,  200,  200,  200,  200,  200,  200,
-     1367, 1367, 1367, 1217,  200, 1367, 1367,  200,  200, 1367,
-      200,  200,  200,  200, 1219, 1367, 1367,  200,  200, 1218,
-     1367,  200,  200,  200, 1367,  200,  200,  200, 1367, 1367,
-     1367,  200,  200, 1367, 1367, 1367, 1367,  200,  200, 1367,
-
-      200, 1219, 1367, 1367,  200,  200,  200, 1367, 1367, 1367,
-      200,  200,  200,  200,  200,  200,  200, 1367, 1367,  200,
-      200, 1220, 1367, 1367,  200,  200,  200, 1367, 1367, 1367,
-     1221,  200, 1367,  200, 1367,  200,  200, 1367,  200, 1222,
-      200, 1367,  200,  200, 1367,  200,  200,  200, 1220,  200,
-     1223, 1225,  200,  200,  200,  200,  200, 1221, 1367, 1367,
-      200,  200,  200,  200,  200, 1367, 1222, 1367,  200, 1367,
-      200, 1367,  200,  200,  200, 1367,  200, 1223, 1225, 1367,
-     1367,  200,  200,  200, 1224, 1367, 1367,  200,  200, 1226,
-     1367,  200,  200, 1367,  200,  200, 1367,  200,  200,  200,
-
-      200,  200, 1367, 1367,  200,  200, 1367, 1367, 1367, 1367,
-      200, 1224, 1367, 1227, 1367, 1367, 1226, 1367, 1367,  200,
-     1367,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-     1367,  200,  200, 1367,  200, 1367,  200,  200,  200, 1367,
-     1227, 1367, 1367, 1228, 1367,  200, 1367,  200,  200,  200,
-     1367,  200, 1229, 1367, 1367, 1367,  200,  200, 1367, 1367,
-     1367,  200, 1367,  200,  200,  200,  200, 1367, 1367, 1367,
-     1228,  200,  200, 1367,  200,  200,  200, 1367,  200, 1229,
-     1230, 1367, 1367, 1367,  200,  200, 1367,  200, 1367,  200,
-      200,  200, 1367,  200,  200, 1367, 1367, 1367,  200,  200,
-
-     1367, 1367, 1367,  200, 1367,  200, 1231, 1230,  200, 1367,
-     1367, 1367,  200,  200,  200, 1367,  200,  200,  200, 1367,
-      200,  200,  200, 1232, 1367, 1367,  200,  200, 1367, 1367,
-     1367, 1367,  200, 1231,  200,  200,  200, 1367, 1367, 1367,
-      200,  200, 1233, 1367, 1367,  200,  200,  200, 1367,  200,
-     1232, 1367, 1367,  200,  200,  200, 1367, 1367, 1367,  200,
-      200,  200, 1367,  200, 1367,  200, 1367, 1234,  200, 1233,
-     1367, 1367, 1367,  200, 1367, 1367,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200, 1235, 1367,  200,  200,  200,
-     1367, 1367,  200, 1367, 1234, 1367, 1367, 1367, 1367, 1236,
-
-     1367, 1367, 1367,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1235, 1367,  200,  200,  200, 1367,  200,  200,
-      200,  200, 1367,  200, 1367,  200, 1236, 1367,  200, 1367,
-      200, 1367, 1367,  200,  200, 1367,  200,  200, 1367,  200,
-     1367,  200, 1367, 1367,  200,  200,  200,  200,  200,  200,
-      200,  200,  200,  200, 1367,  200, 1367,  200,  200, 1367,
-      200, 1367, 1367,  200,  200, 1367,  200,  200, 1367,  200,
-     1238,  200,  200, 1237,  200, 1367,  200,  200,  200,  200,
-      200,  200,  200,  200, 1367,  200, 1367, 1367,  200, 1367,
-      200, 1367, 1367,  200,  200, 1367,  200, 1238, 1367,  200,
-
-     1237,  200, 1367, 1367,  200,  200,  200,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-      200,  200, 1367,  200, 1367, 1367,  200, 1264, 1367, 1367,
-     1367,  200,  200, 1367,  200, 1367, 1367,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-      200,  200,  200,  200, 1264,  200, 1265, 1241,  200, 1367,
-     1367,  200,  200, 1367,  200, 1367, 1266, 1367, 1367,  200,
-      200,  200, 1367,  200,  200, 1367,  200, 1367,  200,  200,
-     1367,  200,  200, 1367, 1367,  200,  200, 1367,  200,  200,
-     1367,  200, 1267, 1266, 1367,  200,  200,  200,  200,  200,
-
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200, 1367,
-      200, 1367,  200,  200,  200,  200,  200, 1367,  200, 1267,
-      200, 1367,  200,  200, 1367, 1268,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200,  200, 1367,  200,  200, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200, 1271, 1269,
-     1367, 1367, 1268,  200,  200, 1367,  200,  200,  200,  200,
-     1367,  200,  200,  200,  200,  200, 1270, 1367,  200,  200,
-     1367,  200,  200,  200,  200, 1271, 1269, 1367,  200,  200,
-      200,  200,  200, 1367,  200,  200,  200,  200,  200,  200,
-      200,  200, 1367, 1270,  200,  200,  200, 1367,  200,  200,
-
-      200,  200, 1367, 1367,  200,  200,  200, 1367, 1367,  200,
-      200,  200, 1367, 1367,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1367, 1367,  200,  200,  200,  200, 1273,  200,
-      200,  200, 1272, 1367, 1367,  200, 1367,  200, 1367, 1367,
-      200,  200, 1367,  200,  200, 1367,  200,  200,  200, 1367,
-     1367,  200, 1367,  200, 1367, 1273,  200,  200, 1367, 1272,
-     1367, 1367,  200, 1367,  200, 1367,  200,  200,  200, 1367,
-      200,  200,  200, 1367,  200,  200,  200, 1275, 1367,  200,
-      200,  200,  200,  200,  200,  200,  200,  200, 1367, 1274,
-      200,  200, 1276,  200, 1367,  200, 1367,  200,  200,  200,
-
-     1367,  200,  200,  200, 1275, 1367,  200, 1367,  200,  200,
-      200,  200,  200,  200,  200, 1367, 1274,  200,  200, 1276,
-     1277,  200,  200,  200,  200,  200, 1367, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1367, 1367, 1367, 1367,  200,
-     1367, 1367, 1278, 1367,  200,  200, 1367, 1277,  200, 1367,
-      200,  200,  200,  200, 1367,  200, 1367,  200,  200,  200,
-      200,  200, 1367,  200, 1367,  200,  200,  200, 1367, 1278,
-     1367,  200,  200, 1279, 1367, 1367, 1367,  200,  200, 1367,
-      200, 1367, 1367, 1280,  200,  200,  200, 1367, 1367, 1367,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-
-     1279, 1367,  200, 1367,  200, 1367, 1367,  200, 1367, 1367,
-     1280,  200, 1367,  200,  200, 1367,  200, 1367,  200, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      200, 1367,  200, 1281,  200,  200, 1367,  200, 1367, 1367,
-      200,  200, 1367,  200,  200, 1367,  200, 1367,  200, 1367,
-     1282,  200,  200,  200,  200,  200,  200,  200, 1367,  200,
-     1281, 1367,  200, 1367,  200, 1367, 1367,  200,  200, 1283,
-      200,  200, 1367,  200,  200,  200,  200, 1282,  200, 1367,
-      200,  200, 1284,  200, 1285, 1367,  200, 1367,  200, 1367,
-     1367, 1367, 1367, 1367,  200,  200, 1283,  200, 1367, 1367,
-
-     1367,  200,  200,  200,  200, 1367, 1286,  200,  200, 1284,
-      200, 1285, 1367,  200,  200,  200,  200, 1367,  200,  200,
-     1367,  200, 1367,  200,  200, 1367,  200, 1367, 1367,  200,
-     1367,  200,  200, 1286,  200, 1367,  200,  200, 1367,  200,
-     1367,  200,  200,  200,  200,  200,  200, 1367,  200, 1367,
-      200,  200,  200,  200,  200, 1367,  200, 1302,  200,  200,
-     1367,  200,  200,  200,  200, 1367,  200, 1367,  200,  200,
-      200,  200,  200, 1304,  200,  200,  200, 1367,  200,  200,
-      200,  200,  200, 1367, 1302,  200, 1367, 1367, 1367,  200,
-      200,  200,  200, 1367,  200,  200, 1367,  200,  200,  200,
-
-     1304,  200, 1367,  200,  200,  200,  200,  200, 1305,  200,
-      200, 1367, 1367, 1367,  200, 1367,  200,  200, 1367,  200,
-     1367,  200, 1367, 1367,  200,  200,  200, 1367,  200, 1367,
-     1367,  200,  200,  200,  200, 1305,  200,  200, 1367, 1306,
-     1367,  200,  200,  200,  200, 1367, 1367, 1367, 1367, 1367,
-      200,  200,  200,  200,  200,  200, 1367, 1367, 1367,  200,
-      200,  200, 1367,  200, 1367, 1367, 1306, 1367, 1367,  200,
-      200,  200,  200, 1367, 1367, 1367,  200,  200, 1367,  200,
-     1367,  200,  200, 1309,  200, 1307, 1308,  200,  200, 1367,
-      200,  200,  200, 1367, 1310,  200,  200,  200,  200,  200,
-
-      200, 1367, 1367,  200,  200, 1367, 1367, 1367, 1367,  200,
-     1309,  200, 1307, 1308,  200,  200,  200,  200,  200,  200,
-      200, 1310,  200,  200,  200,  200,  200,  200,  200,  200,
-     1367,  200, 1367,  200,  200, 1367,  200, 1367,  200,  200,
-     1367,  200,  200,  200,  200, 1367, 1367,  200,  200,  200,
-     1367,  200, 1367,  200, 1367,  200,  200, 1367, 1311, 1367,
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200,  200,
-      200,  200,  200,  200, 1313,  200,  200,  200,  200, 1312,
-      200, 1314,  200,  200, 1367, 1311,  200, 1367,  200, 1367,
-      200, 1367,  200,  200, 1367,  200, 1367,  200, 1367,  200,
-
-      200, 1313,  200, 1367,  200,  200, 1312,  200, 1314,  200,
-      200, 1323, 1316,  200, 1325,  200, 1367,  200,  200,  200,
-      200, 1367,  200,  200,  200, 1367,  200,  200, 1367,  200,
-     1367, 1367,  200,  200,  200, 1367,  200, 1367, 1367, 1367,
-      200, 1325,  200,  200, 1367,  200,  200, 1367, 1367,  200,
-      200,  200, 1367,  200,  200, 1367,  200, 1367, 1367,  200,
-      200,  200, 1367,  200,  200, 1367,  200,  200, 1367,  200,
-      200, 1326,  200,  200,  200,  200,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200, 1327, 1367,  200, 1367, 1367,
-      200,  200, 1367,  200, 1367, 1367, 1367, 1367, 1326,  200,
-
-     1367,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      200,  200, 1327, 1367,  200,  200,  200,  200,  200, 1367,
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200,  200,
-      200, 1328, 1367,  200,  200,  200,  200,  200,  200,  200,
-     1367,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200,  200,  200,  200, 1328, 1367,
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200, 1367,
-      200,  200, 1367,  200,  200,  200,  200, 1336, 1367, 1367,
-      200,  200,  200, 1367,  200, 1367,  200,  200, 1367, 1367,
-      200,  200, 1367, 1367, 1367, 1367,  200,  200, 1367, 1367,
-
-     1367,  200,  200, 1367, 1336, 1367, 1367,  200, 1367,  200,
-     1367,  200, 1367,  200,  200, 1367, 1367,  200,  200, 1367,
-     1367, 1367, 1367,  200,   46,   46,   46,   46,   46,   88,
-     1367, 1367,   88,   88,  185,  185,  185, 1367,  185,  187,
-     1367,  187,  187,  187,  190, 1367,  190,  190,  190,  200,
-     1367,  200,  200,  200,    7, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367
+        6,    7,    8,    9,   10,   11,   12,   13,   14,   15,
+       15,   15,   15,   15,   15,   15,   15,   15,   15,   16,
+       17,   18,   19,   20,   21,   22,   23,   24,   25,   26,
+       27,   28,   29,   30,   31,   32,   33,   34,   35,   36,
+       37,   38,   39,   40,   41,   35,   42,   35,    6,   19,
+       20,   21,   22,   23,   24,   25,   26,   27,   28,   29,
+       30,   31,   32,   33,   34,   35,   36,   37,   38,   39,
+       40,   41,   35,   42,   35,   43,    6,   45,   45,   47,
+       47,   47,   47,   50,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   51,   53,   54,   54,   54,   54,
+
+       54,   54,   54,   54,   54,   54,   55,   56,   66,   70,
+      100,   90,   67,  101,  144,   59,   71,   91,   68,   47,
+       47,  627,  627,   72,  664,  664,   73,  688,   69,   74,
+      687,  686,  684,  682,  140,   66,   70,  100,   90,   67,
+      101,  144,  141,   71,   91,   68,  152,   46,   46,   60,
+       72,   61,   92,   73,   75,   69,   74,   62,   76,   63,
+       93,  140,   77,   64,   65,   80,   94,   81,   78,  141,
+      153,   79,   82,  152,  680,  158,   60,   83,   61,   92,
+      678,   75,  676,  674,   62,   76,   63,   93,  670,   77,
+       64,   65,   80,   94,   81,   78,  102,  153,   79,   82,
+
+      103,   95,  158,  663,   83,   84,  104,   96,   97,   98,
+      108,  105,  649,   85,   99,  106,   86,  142,  143,   87,
+      625,  107,   88,  102,  109,   89,  159,  103,   95,  579,
+      110,  111,   84,  104,   96,   97,   98,  108,  105,  117,
+       85,   99,  106,   86,  142,  143,   87,  112,  107,   88,
+      118,  109,   89,  159,  163,  113,  119,  110,  111,  114,
+      164,  120,  115,  116,  154,  121,  117,  167,  137,  122,
+      138,  174,  155,  139,  112,  123,  504,  118,  405,  184,
+      277,  163,  113,  119,  150,  185,  114,  164,  120,  115,
+      116,  154,  121,  148,  167,  137,  122,  138,  174,  155,
+
+      139,  156,  123,  124,  157,  125,  184,  165,  126,  147,
+      145,  127,  185,  128,  166,  129,  130,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   58,  156,  172,
+      124,  157,  125,  186,  165,  126,  160,  161,  127,  173,
+      128,  166,  129,  130,  131,  168,  169,  170,  132,  171,
+      162,  133,  134,  189,  175,  195,  172,  196,  135,  176,
+      186,  136,   57,  160,  161,   48,  173,  689,  689,  689,
+      689,  131,  168,  169,  170,  132,  171,  162,  133,  134,
+      189,  175,  195,  689,  196,  135,  176,  689,  136,  151,
+      151,  151,  151,  151,  151,  151,  151,  151,  151,   53,
+
+       54,   54,   54,   54,   54,   54,   54,   54,   54,   54,
+      177,  197,  178,  182,  183,  179,  187,  188,  190,  198,
+      191,  180,  200,  201,  192,  199,  202,  203,  181,  204,
+      206,  193,  205,  207,  208,  194,  209,  177,  197,  178,
+      182,  183,  179,  187,  188,  190,  198,  191,  180,  200,
+      201,  192,  199,  202,  203,  181,  204,  206,  193,  205,
+      207,  208,  194,  209,  210,  214,  215,  216,  217,  218,
+      220,  219,  221,  223,  211,  224,  225,  226,  227,  212,
+      213,  228,  229,  222,  230,  231,  232,  233,  234,  235,
+      236,  210,  214,  215,  216,  217,  218,  220,  219,  221,
+
+      223,  211,  224,  225,  226,  227,  212,  213,  228,  229,
+      222,  230,  231,  232,  233,  234,  235,  236,  237,  239,
+      240,  244,  238,  245,  247,  241,  248,  251,  253,  254,
+      255,  256,  257,  242,  246,  249,  689,  260,  243,  261,
+      262,  252,  689,  250,  689,  237,  239,  240,  244,  238,
+      245,  247,  241,  248,  251,  253,  254,  255,  256,  257,
+      242,  246,  249,  258,  260,  243,  261,  262,  252,  263,
+      250,  265,  268,  269,  259,  272,  270,  274,  266,  275,
+      276,  267,  271,  278,  279,  280,  281,  282,  273,  264,
+      258,  689,  689,  689,  689,  689,  263,  689,  265,  268,
+
+      269,  259,  272,  270,  274,  266,  275,  276,  267,  271,
+      278,  279,  280,  281,  282,  273,  264,  151,  151,  151,
+      151,  151,  151,  151,  151,  151,  151,  283,  284,  285,
+      286,  287,  288,  291,  289,  292,  293,  294,  295,  296,
+      297,  298,  299,  300,  301,  302,  303,  689,  306,  290,
+      307,  308,  309,  310,  283,  284,  285,  286,  287,  288,
+      291,  289,  292,  293,  294,  295,  296,  297,  298,  299,
+      300,  301,  302,  303,  304,  306,  290,  307,  308,  309,
+      310,  311,  312,  313,  314,  315,  316,  317,  318,  305,
+      319,  320,  321,  322,  323,  325,  326,  327,  328,  329,
+
+      330,  304,  324,  331,  332,  333,  334,  335,  311,  312,
+      313,  314,  315,  316,  317,  318,  305,  319,  320,  321,
+      322,  323,  325,  326,  327,  328,  329,  330,  336,  324,
+      331,  332,  333,  334,  335,  337,  338,  340,  341,  342,
+      343,  344,  345,  346,  348,  349,  339,  350,  351,  352,
+      353,  354,  355,  347,  356,  336,  357,  358,  359,  362,
+      689,  365,  337,  338,  340,  341,  342,  343,  344,  345,
+      346,  348,  349,  339,  350,  351,  352,  353,  354,  355,
+      347,  356,  360,  357,  358,  359,  362,  363,  365,  366,
+      367,  368,  369,  370,  371,  372,  373,  374,  375,  376,
+
+      364,  361,  377,  378,  379,  380,  381,  382,  383,  360,
+      384,  385,  386,  387,  363,  388,  366,  367,  368,  369,
+      370,  371,  372,  373,  374,  375,  376,  364,  361,  377,
+      378,  379,  380,  381,  382,  383,  389,  384,  385,  386,
+      387,  391,  388,  394,  392,  390,  393,  395,  396,  397,
+      398,  399,  400,  401,  403,  404,  406,  402,  407,  408,
+      409,  410,  411,  389,  412,  413,  414,  415,  391,  416,
+      394,  392,  390,  393,  395,  396,  397,  398,  399,  400,
+      401,  403,  404,  406,  402,  407,  408,  409,  410,  411,
+      417,  412,  413,  414,  415,  418,  416,  419,  420,  421,
+
+      422,  423,  424,  425,  426,  427,  428,  429,  430,  431,
+      432,  433,  434,  435,  436,  437,  438,  417,  439,  440,
+      441,  442,  418,  443,  419,  420,  421,  422,  423,  424,
+      425,  426,  427,  428,  429,  430,  431,  432,  433,  434,
+      435,  436,  437,  438,  444,  439,  440,  441,  442,  445,
+      443,  446,  447,  448,  449,  450,  451,  452,  453,  454,
+      456,  457,  458,  459,  460,  461,  462,  463,  464,  465,
+      455,  444,  466,  467,  468,  469,  445,  470,  446,  447,
+      448,  449,  450,  451,  452,  453,  454,  456,  457,  458,
+      459,  460,  461,  462,  463,  464,  465,  455,  471,  466,
+
+      467,  468,  469,  472,  470,  473,  474,  475,  476,  477,
+      478,  479,  480,  481,  482,  483,  484,  485,  486,  487,
+      488,  489,  490,  491,  492,  471,  493,  494,  495,  496,
+      472,  497,  473,  474,  475,  476,  477,  478,  479,  480,
+      481,  482,  483,  484,  485,  486,  487,  488,  489,  490,
+      491,  492,  498,  493,  494,  495,  496,  499,  497,  500,
+      501,  502,  503,  505,  506,  507,  508,  509,  510,  511,
+      512,  513,  514,  515,  516,  517,  518,  519,  520,  498,
+      521,  522,  523,  524,  499,  525,  500,  501,  502,  503,
+      505,  506,  507,  508,  509,  510,  511,  512,  513,  514,
+
+      515,  516,  517,  518,  519,  520,  526,  521,  522,  523,
+      524,  527,  525,  528,  529,  530,  531,  532,  533,  534,
+      535,  536,  537,  538,  539,  540,  541,  542,  544,  545,
+      543,  546,  547,  526,  548,  549,  550,  551,  527,  552,
+      528,  529,  530,  531,  532,  533,  534,  535,  536,  537,
+      538,  539,  540,  541,  542,  544,  545,  543,  546,  547,
+      553,  548,  549,  550,  551,  554,  552,  555,  556,  557,
+      558,  559,  560,  561,  562,  563,  564,  565,  566,  567,
+      568,  569,  570,  571,  572,  573,  574,  553,  575,  576,
+      577,  578,  554,  580,  555,  556,  557,  558,  559,  560,
+
+      561,  562,  563,  564,  565,  566,  567,  568,  569,  570,
+      571,  572,  573,  574,  581,  575,  576,  577,  578,  582,
+      580,  583,  584,  585,  586,  587,  588,  589,  590,  591,
+      592,  593,  594,  595,  596,  597,  598,  599,  600,  601,
+      602,  581,  603,  604,  605,  606,  582,  607,  583,  584,
+      585,  586,  587,  588,  589,  590,  591,  592,  593,  594,
+      595,  596,  597,  598,  599,  600,  601,  602,  608,  603,
+      604,  605,  606,  609,  607,  610,  611,  612,  613,  614,
+      615,  616,  617,  618,  619,  620,  621,  622,  623,  624,
+      626,  628,  629,  630,  631,  608,  632,  633,  634,  635,
+
+      609,  636,  610,  611,  612,  613,  614,  615,  616,  617,
+      618,  619,  620,  621,  622,  623,  624,  626,  628,  629,
+      630,  631,  637,  632,  633,  634,  635,  638,  636,  639,
+      640,  641,  642,  643,  644,  645,  646,  647,  648,  650,
+      627,  627,  652,  653,  654,  655,  656,  657,  658,  637,
+      659,  689,  660,  661,  638,  662,  639,  640,  641,  642,
+      643,  644,  645,  646,  647,  648,  650,  665,  666,  652,
+      653,  654,  655,  656,  657,  658,  667,  659,  651,  660,
+      661,  668,  662,  669,  664,  664,  672,  673,  675,  677,
+      679,  681,  683,  685,  665,  666,  689,  689,  689,  689,
+
+      689,  689,  689,  667,  689,  651,  689,  689,  668,  689,
+      669,  689,  689,  672,  673,  675,  677,  679,  681,  683,
+      685,  689,  689,  689,  689,  689,  671,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  671,   44,   44,   44,   44,   44,   44,
+       49,  689,  689,   49,   49,  146,  146,  146,  689,  146,
+      149,  689,  149,  149,  149,    5,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689
     } ;
 
-static yyconst flex_int16_t yy_chk[9032] =
+static const flex_int16_t yy_chk[1554] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -1871,993 +1051,170 @@ static yyconst flex_int16_t yy_chk[9032] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    9,    9,   10,   10,   15,   16,   16,   16,
-       16,   16,   16,   16,   16,   16,   16,   15,   17,   17,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   18,
-       18,   21,   22,   21,   27,   28,   22,   23,   30,   21,
-       27,   21,   22,   28,   23,   21,   21,   31,   41,   28,
-
-       41,   23,   22,   41,   23, 1370,   44,   23,   21,   22,
-       21,   27,   28,   22,   23,   30,   21,   27,   21,   22,
-       28,   23,   21,   21,   31,   41,   28,   41,   23,   22,
-       41,   23,   24,   44,   23,   25,   24,   25,   49,   49,
-       24,   32,   25,   99,   33,   32,   24,   25,   33,   24,
-       55,   32,   50,   50,   33,   43,   43,   58,   58,   24,
-     1364,   55,   25,   24,   25, 1363,   34,   24,   32,   25,
-       99,   33,   32,   24,   25,   33,   24,   26,   32,   36,
-       34,   33,   43,   43,  100,   26,   34,   34,   26,  103,
-       36,   26,   29,   34,   26, 1362,   36,   26,   29,   29,
-
-       29,   42,   86,   86,   26,   29,   36,   34, 1361,   42,
-     1359,  100,   26,   34,   34,   26,  103,   36,   26,   29,
-     1357,   26,   35,   36,   26,   29,   29,   29,   42,  104,
-       35,   38,   29,  101,   35,   38,   42,   35,   35,   38,
-       81,  101,   81,  106,   81,   38, 1355,   81, 1353,   35,
-      102, 1351,   81,  102, 1349,  107,  104,   35,   38, 1347,
-      101,   35,   38, 1345,   35,   35,   38,   81,  101,   81,
-      106,   81,   38,   39,   81,   39,  110,  102,   39,   81,
-      102,   39,  107,   39,  113,   39,   39,   56,   56,   56,
-       56,   56,   56,   56,   56,   56,   56,  188,  188, 1343,
-
-       39, 1341,   39,  110, 1339,   39,  105,  105,   39,  109,
-       39,  113,   39,   39,   40,  112,  109,   67,   40,   67,
-      105,   40,   40,   67,   67,  112,  116,  116,   40,   67,
-      117,   40, 1337,  105,  105, 1333,  109, 1155, 1155, 1288,
-     1288,   40,  112,  109,   67,   40,   67,  105,   40,   40,
-       67,   67,  112,  116,  116,   40,   67,  117,   40,   57,
-       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
-       61,   61,  118,   61,   61,   61,   61,   61,   61,  119,
-       68,  114, 1329, 1322,   68, 1315,  114,  121,   68,   61,
-       61,   61,   70,  123,   68,   61,   70,   61,  124,  118,
-
-      120,  120,   70,   61,   68,   61,  119,   68,  114,   61,
-       61,   68,   70,  114,  121,   68,  125,  127, 1301,   70,
-      123,   68,   61,   70,   61,  124, 1287,  120,  120,   70,
-       61,   68,   61, 1263,  128, 1239,   61,   61, 1193,   70,
-     1147, 1072,  997,  125,  127,   61,   62,   62,  898,   62,
-       62,   62,   62,   62,   62,  799,  671,  129,   71,   72,
-       73,  128,   71,   72,   73,   62,   62,   62,   71,   72,
-       73,  130,   62,   77,  132,  126,   62,   77,   71,   72,
-       73,  126,   62,   77,  129,   71,   72,   73,  133,   71,
-       72,   73,   62,   77,  543,   71,   72,   73,  130,   62,
-
-       77,  132,  126,   62,   77,   71,   72,   73,  126,   62,
-       77,  416,  288,   83,  135,  133,   83,   83,  136,   62,
-       77,   62,   63,   83,   78,  192,   63,  138,   78,   63,
-       63,  131,   78,   83,  131,  190,   63,  139,   78,   63,
-       83,  135,   63,   83,   83,  136,   63,   90,   78,   63,
-       83,   78,  137,   63,  138,   78,   63,   63,  131,   78,
-       83,  131,  137,   63,  139,   78,   63,  137,  137,   63,
-       88,   85,   82,   63,   64,   78,   82,   84,   64,  137,
-       82,   84,   64,  140,  141,  144,   82,   84,   64,  137,
-      142,   64,  142,  145,  137,  137,   82,   84,   64,   82,
-
-       60,   64,   59,   82,   84,   64,   52,   82,   84,   64,
-      140,  141,  144,   82,   84,   64,   51,  142,   64,  142,
-      145,  146,  147,   82,   84,   64,   65,  111,  111,  111,
-       65,  111,  115,   65,  115,   65,   65,  115,  149,  143,
-       65,  143,  150,  115,  151,   65,   65,   47,  146,  147,
-      115,   45,  143,   65,  111,  111,  111,   65,  111,  115,
-       65,  115,   65,   65,  115,  149,  143,   65,  143,  150,
-      115,  151,   65,   65,   66,  148,  153,  115,  148,  143,
-      154,   66,   66,  155,  156,   66,  157,  122,   66,  122,
-      159,   66,  158,  122,   66,   20,  158,  161,   19,  163,
-
-      122,   66,  148,  153,  122,  148,   11,  154,   66,   66,
-      155,  156,   66,  157,  122,   66,  122,  159,   66,  158,
-      122,   66,   69,  158,  161,  162,  163,  122,   69,   69,
-       69,  122,  160,  165,  164,   69,  162,  160,  166,  167,
-       69,    7,  168,  164,  169,  160,  170,  165,    4,   69,
-      160,  164,  162,  172,  173,   69,   69,   69,    3,  160,
-      165,  164,   69,  162,  160,  166,  167,   69,   74,  168,
-      164,  169,  160,  170,  165,   74,  171,  160,  164,  174,
-      172,  173,   74,  177,  176,   74,    0,  171,   74,   74,
-        0,  176,  178,  175,  176,   74,    0,    0,  181,  179,
-
-      182,  183,   74,  171,    0,  179,  174,    0,  291,   74,
-      177,  176,   74,  175,  171,   74,   74,   75,  176,  178,
-      175,  176,   75,  180,   75,  181,  179,  182,  183,  293,
-       75,   75,  179,  294,   75,  291,  180,   75,   75,    0,
-      175,    0,    0,    0,   75,    0,    0,    0,    0,   75,
-      180,   75,    0,    0,    0,  296,  293,   75,   75,    0,
-      294,   75,  208,  180,   75,   75,   76,  208,  200,  208,
-      201,  201,  200,   76,  208,  201,  298,   76,  200,  208,
-       76,  201,  296,   76,  299,  300,   76,    0,  200,  208,
-      301,  201,    0,   76,  208,  200,  208,  201,  201,  200,
-
-       76,  208,  201,  298,   76,  200,  208,   76,  201,    0,
-       76,  299,  300,   76,   79,  200,   79,  301,  201,   79,
-       79,  302,   79,  203,   79,  203,   79,   79,    0,    0,
-      203,  203,    0,    0,  303,  203,   79,    0,    0,    0,
-        0,   79,    0,   79,    0,    0,   79,   79,  302,   79,
-      203,   79,  203,   79,   79,  202,  209,  203,  203,  202,
-      209,  303,  203,   79,   80,  202,  209,  205,   80,  205,
-      202,   80,   80,  205,  205,  202,  209,  305,   80,  205,
-      306,   80,  202,  209,  307,  308,  202,  209,   80,    0,
-        0,   80,  202,  209,  205,   80,  205,  202,   80,   80,
-
-      205,  205,  202,  209,  305,   80,  205,  306,   80,    0,
-        0,  307,  308,    0,    0,   80,   91,   91,   91,   91,
-       91,   91,   91,   91,   91,   91,   92,   92,   92,   92,
-       92,   92,   92,   92,   92,   92,   93,   93,   93,   93,
-       93,   93,   93,   93,   93,   93,   93,  193,  193,  193,
-      193,  193,  193,  193,  193,  193,  193,  194,  194,  194,
-      194,  194,  194,  194,  194,  194,  194,  195,  195,  195,
-      195,  195,  195,  195,  195,  195,  195,  195,  204,  206,
-      304,  204,  304,  309,  310,  311,  312,    0,  206,  204,
-      206,  204,  313,  314,  210,  206,  204,  304,  210,  315,
-
-      206,  204,    0,    0,  210,  204,  206,  304,  204,  304,
-      309,  310,  311,  312,  210,  206,  204,  206,  204,  313,
-      314,  210,  206,  204,  304,  210,  315,  206,  204,  207,
-      207,  210,  211,  316,  211,  207,    0,  207,  317,  211,
-      212,  210,  207,  207,  211,  319,  320,  207,  321,  322,
-        0,  212,  323,  212,    0,  324,  207,  207,  212,  211,
-      316,  211,  207,  212,  207,  317,  211,  212,    0,  207,
-      207,  211,  319,  320,  207,  321,  322,  214,  212,  323,
-      212,  214,  324,  325,    0,  212,  318,  214,    0,    0,
-      212,  213,  213,  213,    0,  213,  215,  214,  213,    0,
-
-      215,  318,  327,  213,  214,  221,  215,  221,  214,  215,
-      325,  216,  221,  318,  214,  216,  215,  221,  213,  213,
-      213,  216,  213,  215,  214,  213,  216,  215,  318,  327,
-      213,  216,  221,  215,  221,  328,  215,    0,  216,  221,
-        0,  329,  216,  215,  221,    0,    0,    0,  216,  330,
-        0,    0,    0,  216,  331,    0,  332,  333,  216,  217,
-        0,  217,  328,    0,  217,  334,  335,  218,  329,  218,
-      217,    0,  217,  218,  218,    0,  330,  217,  219,  218,
-      219,  331,  217,  332,  333,  219,  217,  219,  217,  336,
-      219,  217,  334,  335,  218,  337,  218,  217,  220,  217,
-
-      218,  218,  220,  337,  217,  219,  218,  219,  220,  217,
-      338,  339,  219,  340,  219,  223,  336,  219,  220,    0,
-        0,  341,  337,  227,  223,  220,  223,  227,    0,  220,
-      337,  223,  225,  227,  225,  220,  223,  338,  339,  225,
-      340,  342,  223,  227,  225,  220,  222,  222,  341,    0,
-      227,  223,  343,  223,  227,  222,    0,  222,  223,  225,
-      227,  225,  222,  223,  344,  345,  225,  222,  342,  346,
-      227,  225,  347,  222,  222,  348,  226,  349,  226,  343,
-        0,    0,  222,  226,  222,    0,    0,    0,  226,  222,
-        0,  344,  345,    0,  222,  224,  346,  224,    0,  347,
-
-        0,  224,  348,  226,  349,  226,  350,  224,  224,  229,
-      226,  352,  224,  229,  228,  226,  228,  224,    0,  229,
-      228,  228,  224,  353,  224,  230,  228,  230,  224,  229,
-        0,  355,  230,  350,  224,  224,  229,  230,  352,  224,
-      229,  228,  356,  228,  224,  231,  229,  228,  228,  231,
-      353,    0,  230,  228,  230,  231,  229,  232,  355,  230,
-      357,  232,  358,  351,  230,  231,  360,  232,  233,  356,
-      233,  361,  231,  351,  362,  233,  231,  232,  233,  234,
-      233,  234,  231,    0,  232,    0,  234,  357,  232,  358,
-      351,  234,  231,  360,  232,  233,  363,  233,  361,  364,
-
-      351,  362,  233,    0,  232,  233,  234,  233,  234,  236,
-      235,  236,  235,  234,  366,  359,  236,  235,  234,  235,
-      237,  236,  235,  363,  237,  359,  364,    0,    0,    0,
-      237,    0,    0,    0,    0,  367,  236,  235,  236,  235,
-      237,  366,  359,  236,  235,  368,  235,  237,  236,  235,
-      238,  237,  359,  369,  238,  241,  240,  237,  240,  241,
-      238,  238,  367,  240,  370,  241,  371,  237,  240,  372,
-      238,    0,  368,    0,  242,  241,    0,  238,  242,    0,
-      369,  238,  241,  240,  242,  240,  241,  238,  238,    0,
-      240,  370,  241,  371,  242,  240,  372,  238,  239,  243,
-
-      243,  242,  241,  243,  373,  242,  239,  374,  239,  243,
-      246,  242,  246,  239,  239,    0,  246,  246,  239,  243,
-        0,  242,  246,  373,    0,  239,  243,  243,    0,    0,
-      243,  373,    0,  239,  374,  239,  243,  246,  257,  246,
-      239,  239,  257,  246,  246,  239,  243,  244,  257,  246,
-      373,  244,  247,  244,  247,  244,  260,  244,  257,  247,
-      260,  376,  377,    0,  247,  257,  260,  244,    0,  257,
-        0,    0,  378,    0,  244,  257,  260,  375,  244,  247,
-      244,  247,  244,  260,  244,  257,  247,  260,  376,  377,
-      375,  247,    0,  260,  244,  245,  379,  245,  248,  378,
-
-      248,  380,  381,  260,  375,  248,  245,  249,  245,  249,
-      248,  382,  383,  245,  249,  249,  384,  375,  245,  249,
-        0,  385,  245,  379,  245,  248,  386,  248,  380,  381,
-        0,    0,  248,  245,  249,  245,  249,  248,  382,  383,
-      245,  249,  249,  384,    0,  245,  249,  250,  385,  250,
-      251,    0,  251,  386,  250,  250,    0,  251,  250,  250,
-      252,    0,  251,  254,  387,  254,  389,    0,  390,    0,
-      254,  252,    0,  252,  250,  254,  250,  251,  252,  251,
-        0,  250,  250,  252,  251,  250,  250,  252,  253,  251,
-      254,  387,  254,  389,  253,  390,  253,  254,  252,  255,
-
-      252,  253,  254,    0,  391,  252,  253,  255,    0,  255,
-      252,    0,    0,  392,  255,  253,  393,  394,    0,  255,
-      395,  253,    0,  253,    0,  396,  255,  397,  253,    0,
-      256,  391,  256,  253,  255,  258,  255,  256,  256,  258,
-      392,  255,  256,  393,  394,  258,  255,  395,  258,  261,
-        0,  261,  396,  398,  397,  258,  261,  256,  399,  256,
-        0,  261,  258,  259,  256,  256,  258,  259,  401,  256,
-      403,  259,  258,    0,  263,  258,  261,  259,  261,  263,
-      398,  263,  258,  261,  405,  399,  263,  259,  261,    0,
-      259,  263,    0,    0,  259,  401,    0,  403,  259,    0,
-
-      402,  263,    0,    0,  259,  264,  263,  264,  263,  402,
-        0,  405,  264,  263,  259,  262,  264,  264,  263,  265,
-      262,  406,  407,  265,    0,  265,  262,  402,  262,  404,
-      265,  404,  264,  262,  264,  265,  402,  267,  262,  264,
-      408,  267,  262,  264,  264,  267,  265,  262,  406,  407,
-      265,  267,  265,  262,    0,  262,  404,  265,  404,  268,
-      262,  267,  265,  268,  267,  262,  266,  408,  267,  268,
-      409,  410,  267,  411,  413,  266,    0,  266,  267,  268,
-        0,  269,  266,  266,    0,  269,  268,  266,  267,  269,
-      268,    0,    0,  266,    0,  269,  268,  409,  410,  412,
-
-      411,  413,  266,  412,  266,  269,  268,  270,  269,  266,
-      266,  270,  269,  414,  266,  271,  269,  270,  272,  271,
-      270,  272,  269,  271,  544,  272,  412,  270,  545,  271,
-      412,  272,  269,    0,  270,    0,  546,  547,  270,  271,
-      414,  272,  271,  548,  270,  272,  271,  270,  272,  274,
-      271,  544,  272,  274,  270,  545,  271,    0,  272,  274,
-      273,  273,  273,  546,  547,  549,  271,  273,  272,  274,
-      548,  275,  273,  276,  550,  275,  274,  276,    0,  275,
-      274,  275,  551,  276,  276,    0,  274,  273,  273,  273,
-        0,  275,  549,  276,  273,    0,  274,  552,  275,  273,
-
-      276,  550,  275,  280,  276,  277,  275,  280,  275,  551,
-      276,  276,  277,  280,  554,  557,  279,  279,  275,  277,
-      276,  279,  277,  280,  552,  277,    0,  279,    0,    0,
-      280,  558,  277,    0,  280,    0,    0,  279,    0,  277,
-      280,  554,  557,  279,  279,  559,  277,  560,  279,  277,
-      280,    0,  277,  278,  279,  281,  278,  281,  558,  562,
-      278,  281,  281,  278,  279,  282,  278,  281,    0,  282,
-      563,  564,  559,    0,  560,  282,  278,    0,  282,  565,
-      278,  567,  281,  278,  281,  282,  562,  278,  281,  281,
-      278,  283,  282,  278,  281,  283,  282,  563,  564,    0,
-
-      284,  283,  282,  278,  284,  282,  565,  568,  567,  285,
-      284,  283,  282,  285,  422,  284,  422,  285,  283,  569,
-      284,  422,  283,  285,  570,  571,  422,  284,  283,  572,
-      573,  284,  574,  285,  568,    0,  285,  284,  283,    0,
-      285,  422,  284,  422,  285,    0,  569,  284,  422,    0,
-      285,  570,  571,  422,    0,    0,  572,  573,    0,  574,
-      285,  289,  289,  289,  289,  289,  289,  289,  289,  289,
-      289,  417,  417,  417,  417,  417,  417,  417,  417,  417,
-      417,  418,  419,  420,  421,  418,  419,  420,  421,  575,
-      578,  418,  419,  420,  421,    0,  579,  580,    0,  581,
-
-        0,  418,  419,  420,  421,    0,    0,    0,  418,  419,
-      420,  421,  418,  419,  420,  421,  575,  578,  418,  419,
-      420,  421,  424,  579,  580,  423,  581,  423,  418,  419,
-      420,  421,  423,  424,  425,  424,  425,  423,  426,    0,
-      424,  425,  426,    0,  582,  424,  425,    0,  426,  424,
-      583,    0,  423,  584,  423,  585,    0,    0,  426,  423,
-      424,  425,  424,  425,  423,  426,  427,  424,  425,  426,
-      427,  582,  424,  425,  428,  426,  427,  583,  428,  429,
-      584,  587,  585,  429,  428,  426,  427,    0,  430,  429,
-      430,  588,  428,  427,  428,  430,  589,  427,  590,  429,
-
-      430,  428,  431,  427,  431,  428,  429,  593,  587,  431,
-      429,  428,  594,  427,  431,  430,  429,  430,  588,  428,
-      433,  428,  430,  589,  433,  590,  429,  430,    0,  431,
-      433,  431,    0,  433,  593,    0,  431,    0,    0,  594,
-      433,  431,  432,    0,  432,  434,  596,  433,  432,  434,
-      598,  433,  599,    0,  432,  434,  600,  433,  435,  432,
-      433,  434,  435,    0,  432,  434,  435,  433,  435,  432,
-      437,  432,  434,  596,  437,  432,  434,  598,  435,  599,
-      437,  432,  434,  600,    0,  435,  432,    0,  434,  435,
-      437,  432,  434,  435,  436,  435,    0,  437,  436,    0,
-
-      601,  437,  438,  602,  436,  435,  438,  437,  603,  436,
-      438,  439,    0,  439,  436,    0,  438,  437,  439,  606,
-        0,  436,    0,  439,    0,  436,  438,  601,  604,  438,
-      602,  436,  610,  438,  612,  603,  436,  438,  439,  604,
-      439,  436,  440,  438,  440,  439,  606,  441,  440,  440,
-      439,  441,  613,  438,  440,  604,  442,  441,  442,  610,
-      615,  612,  617,  442,  618,    0,  604,  441,  442,  440,
-      443,  440,  443,    0,  441,  440,  440,  443,  441,  613,
-        0,  440,  443,  442,  441,  442,    0,  615,  444,  617,
-      442,  618,  444,  619,  441,  442,    0,  443,  444,  443,
-
-      616,  616,  445,  446,  443,  621,  445,  446,  444,  443,
-      445,    0,  622,  446,  623,  444,  445,  624,  446,  444,
-      619,    0,  626,  446,    0,  444,  445,  616,  616,  445,
-      446,    0,  621,  445,  446,  444,  447,  445,  447,  622,
-      446,  623,  447,  445,  624,  446,  627,  448,  447,  626,
-      446,  448,    0,  445,  629,    0,  449,  448,  447,    0,
-      449,  630,  631,  447,  632,  447,  449,  448,    0,  447,
-        0,  449,    0,  627,  448,  447,  449,    0,  448,  450,
-        0,  629,  450,  449,  448,  447,  450,  449,  630,  631,
-        0,  632,  450,  449,  448,  452,  634,  451,  449,  452,
-
-      453,  451,  450,  449,  453,  452,  450,  451,  451,  450,
-      453,  635,  636,  450,    0,  452,  637,  451,    0,  450,
-      453,  638,  452,  634,  451,  640,  452,  453,  451,  450,
-      641,  453,  452,    0,  451,  451,  454,  453,  635,  636,
-      454,  455,  452,  637,  451,  455,  454,  453,  638,  455,
-      456,    0,  640,    0,  456,  455,  454,  641,  642,  458,
-      456,  458,  459,  454,  459,  455,  458,  454,  455,  459,
-      456,  458,  455,  454,  459,    0,  455,  456,  457,    0,
-      457,  456,  455,  454,  457,  642,  458,  456,  458,  459,
-      457,  459,  455,  458,  643,  646,  459,  456,  458,    0,
-
-      457,  459,  460,  647,  460,  457,  462,  457,  460,  460,
-      462,  457,  648,  461,  460,  461,  462,  457,  649,  650,
-      461,  643,  646,  653,  463,  461,  462,  457,  463,  460,
-      647,  460,  463,  462,    0,  460,  460,  462,  463,  648,
-      461,  460,  461,  462,  654,  649,  650,  461,  463,  656,
-      653,  463,  461,  462,  464,  463,  464,  657,  658,  463,
-      465,  464,    0,  659,  465,  463,  464,  660,  465,  466,
-      465,  654,  661,  466,    0,  463,  656,  466,  662,  466,
-      465,  464,  663,  464,  657,  658,    0,  465,  464,  466,
-      659,  465,    0,  464,  660,  465,  466,  465,    0,  661,
-
-      466,  467,  468,  467,  466,  662,  466,  465,  467,  663,
-        0,  664,  468,  467,  468,  666,  466,    0,  668,  468,
-        0,    0,  670,    0,  468,  469,    0,  469,  467,  468,
-      467,    0,  469,    0,  469,  467,    0,  469,  664,  468,
-      467,  468,  666,  471,  470,  668,  468,  471,  470,  670,
-      470,  468,  469,  471,  469,  470,  802,    0,  472,  469,
-      470,  469,  472,  471,  469,    0,  804,    0,  472,    0,
-      471,  470,  806,  472,  471,  470,  807,  470,  472,    0,
-      471,  808,  470,  802,  473,  472,  809,  470,  473,  472,
-      471,    0,  474,  804,  473,  472,  474,  473,  474,  806,
-
-      472,    0,  474,  807,  473,  472,  475,    0,  808,    0,
-      475,  473,  474,  809,  810,  473,  475,    0,  476,  474,
-      811,  473,  476,  474,  473,  474,  475,    0,  476,  474,
-      477,  473,  478,  475,  477,  812,  478,  475,  476,  474,
-      477,  810,  478,  475,  479,  476,  813,  811,  479,  476,
-      477,    0,  478,  475,  479,  476,  480,  477,    0,  478,
-      480,  477,  812,  478,  479,  476,  480,  477,  814,  478,
-      816,  479,  480,  813,  817,  479,  480,  477,  481,  478,
-      481,  479,  482,  480,  482,  481,    0,  480,  818,  482,
-      481,  479,    0,  480,  482,  814,    0,  816,  819,  480,
-
-      484,  817,    0,  480,  484,  481,  483,  481,  483,  482,
-      484,  482,  481,  483,  483,  818,  482,  481,  483,  485,
-      484,  482,  488,  485,  488,  819,  488,  484,  820,  485,
-        0,  484,  488,  483,    0,  483,  821,  484,  823,  485,
-      483,  483,  488,  486,  486,  483,  485,  484,  486,  488,
-      485,  488,  824,  488,  486,  820,  485,  491,  489,  488,
-      489,  491,  489,  821,  486,  823,  485,  491,  489,  488,
-      486,  486,  491,    0,  825,  486,    0,  491,  489,  824,
-      826,  486,    0,  827,  491,  489,    0,  489,  491,  489,
-      828,  486,  487,  490,  491,  489,  487,  490,    0,  491,
-
-      487,  825,  487,  490,  491,  489,  487,  826,  829,  490,
-      827,    0,  830,  490,    0,    0,  487,  828,  492,  487,
-      490,  493,  492,  487,  490,  493,  831,  487,  492,  487,
-      490,  493,  832,  487,  492,  829,  490,  833,  492,  830,
-      490,  493,  494,  487,  836,  492,  494,    0,  493,  492,
-      494,  837,  493,  831,    0,  492,  494,  838,  493,  832,
-      495,  492,  495,    0,  833,  492,  494,  495,  493,  494,
-      839,  836,  495,  494,  496,    0,  496,  494,  837,    0,
-      496,  496,  840,  494,  838,    0,  496,  495,  497,  495,
-      497,  841,  498,  494,  495,  497,  498,  839,    0,  495,
-
-      497,  496,  498,  496,    0,  844,  499,  496,  496,  840,
-      499,  847,  498,  496,    0,  497,  499,  497,  841,  498,
-        0,  500,  497,  498,  848,  500,  499,  497,  502,  498,
-      502,  500,  844,  499,  500,  502,    0,  499,  847,  498,
-      502,  500,    0,  499,  850,  853,    0,  506,  500,  506,
-        0,  848,  500,  499,  506,  502,    0,  502,  500,  506,
-      856,  500,  502,  504,  504,  504,    0,  502,  500,  501,
-      504,  850,  853,  501,  506,  504,  506,  501,  857,    0,
-      858,  506,  849,  501,  859,  849,  506,  856,  501,  860,
-      504,  504,  504,  501,    0,  861,  501,  504,  864,  865,
-
-      501,  505,  504,    0,  501,  857,  505,  858,  505,  849,
-      501,  859,  849,  505,  866,  501,  860,  867,  505,  507,
-      501,  503,  861,  507,  868,  864,  865,    0,  505,  507,
-      503,    0,  503,  505,  503,  505,  870,  503,  871,  507,
-      505,  866,  503,    0,  867,  505,  507,    0,  503,  872,
-      507,  868,  874,    0,  508,    0,  507,  503,  508,  503,
-        0,  503,  508,  870,  503,  871,  507,  509,  508,  503,
-      510,  509,  875,  510,  510,    0,  872,  509,  508,  874,
-      510,  508,  509,    0,  511,  508,  511,  509,    0,  508,
-      510,  511,  876,    0,  509,  508,  511,  510,  509,  875,
-
-      510,  510,  513,    0,  509,  508,  513,  510,  512,  509,
-      512,  511,  513,  511,  509,  512,  877,  510,  511,  876,
-      512,  514,  513,  511,  515,  514,  516,  879,  515,  513,
-      516,  514,  880,  513,  515,  512,  516,  512,  520,  513,
-      520,  514,  512,  877,  515,  520,  516,  512,  514,  513,
-      520,  515,  514,  516,  879,  515,  517,  516,  514,  880,
-      517,  515,  881,  516,  882,  520,  517,  520,  514,  517,
-      518,  515,  520,  516,  518,  519,  517,  520,  883,  519,
-      518,  884,  885,  517,  886,  519,  519,  517,  518,  881,
-      518,  882,  521,  517,  521,  519,  517,  518,  887,  521,
-
-      521,  518,  519,  517,  521,  883,  519,  518,  884,  885,
-        0,  886,  519,  519,    0,  518,  522,  518,  522,  521,
-      889,  521,  519,  522,  522,  887,  521,  521,  522,  890,
-      523,  521,  523,  891,  524,  893,  524,  523,  524,  894,
-      895,  524,  523,  522,  998,  522,  524,  889,    0,    0,
-      522,  522,    0,    0,    0,  522,  890,  523,    0,  523,
-      891,  524,  893,  524,  523,  524,  894,  895,  524,  523,
-      525,  998,  525,  524,  526,  527,  526,  525,  525,  527,
-      528,  526,  525, 1000,  528,  527,  526,    0, 1002,    0,
-      528, 1003, 1004, 1005,    0,  527,    0,  525, 1007,  525,
-
-      528,  526,  527,  526,  525,  525,  527,  528,  526,  525,
-     1000,  528,  527,  526,  529, 1002,  529,  528, 1003, 1004,
-     1005,  529,  527,  530,  531, 1007,  529,  528,  531,    0,
-      530, 1009,  530,    0,  531, 1010, 1011,  530, 1012,    0,
-     1013,  529,  530,  529,  531, 1015, 1017,    0,  529,    0,
-      530,  531,    0,  529, 1019,  531,  532,  530, 1009,  530,
-      532,  531, 1010, 1011,  530, 1012,  532, 1013,  532,  530,
-      533,  531, 1015, 1017,  533,    0,  532,  535,  534,  535,
-      533, 1019,  534,  532,  535,    0,  534,  532, 1022,  535,
-      533,    0,  534,  532,    0,  532,    0,  533,    0,    0,
-
-        0,  533,  534,  532,  535,  534,  535,  533,    0,  534,
-     1024,  535,  537,  534, 1025, 1022,  535,  533,  536,  534,
-      536,  537, 1026,  537,  538,  536,  538,  536,  537,  534,
-      536,  538,    0,  537,    0,  538,  538, 1024, 1027,  537,
-        0, 1025, 1034,    0,    0,  536,    0,  536,  537, 1026,
-      537,  538,  536,  538,  536,  537, 1035,  536,  538,  539,
-      537,  539,  538,  538, 1036, 1027,  539,  539,  540, 1034,
-      540,  539, 1039,  541,  540,  540,    0,  541,    0,  541,
-      540, 1041,    0, 1035,  541,    0,  539,    0,  539,  541,
-     1043, 1036,    0,  539,  539,  540,    0,  540,  539, 1039,
-
-      541,  540,  540,  542,  541,  542,  541,  540, 1041,  542,
-      542,  541,  672, 1045,  672,  542,  541, 1043,  672,  672,
-        0,  673, 1046,  673,  672,    0,    0,  673,  673,    0,
-      542, 1047,  542,  673,    0,    0,  542,  542,    0,  672,
-     1045,  672,  542,  674,    0,  672,  672,  674,  673, 1046,
-      673,  672,  675,  674,  673,  673,  675, 1048, 1047,  677,
-      673,  677,  675,  674, 1049,  676,  677, 1050, 1052,  676,
-      674,  677,  675, 1053,  674,  676,    0,  678,  676,  675,
-      674,  678,    0,  675, 1048,  676,  677,  678,  677,  675,
-      674, 1049,  676,  677, 1050, 1052,  676,  678,  677,  675,
-
-     1053, 1054,  676,  680,  678,  676,    0,  680,  678,  679,
-        0,  679,  676,  680,  678,  681,  679, 1055,    0,  681,
-        0,  679,    0,  680,  678,  681, 1057, 1059, 1054, 1061,
-      680, 1062,    0,  682,  680,  681,  679,  682,  679, 1063,
-      680,  682,  681,  679, 1055,  683,  681,  682,  679,  683,
-      680, 1064,  681, 1057, 1059,  683, 1061,  682, 1062,  684,
-      682, 1065,  681,  684,  682,  683, 1063,  685,  682,  684,
-        0,  685,  683, 1070,  682,  685,  683, 1071, 1064,  684,
-        0,  685,  683, 1152,  682,  686,  684, 1156, 1065,  686,
-      684,  685,  683,  686,  685,  686,  684,  687,  685, 1157,
-
-     1070,  687,  685, 1160, 1071,  686,  684,  687,  685,    0,
-     1152,  689,  686,    0, 1156,  689,  686,  687,  685,    0,
-      686,  689,  686,  688,  687,  690, 1157,  688,  687,  690,
-     1160,  689,  686,  688,  687,  690,  688, 1161,  689,  691,
-      690,  691,  689,  688,  687,  690,  691, 1162,  689,  692,
-      688,  691,  690,  692,  688,    0,  690,    0,  689,  692,
-      688,  694,  690,  688, 1161,  694,  691,  690,  691,  692,
-      688,  694,  690,  691, 1162,  693,  692,    0,  691,  693,
-      692,  694,  695,    0,  695,  693,  692,  702,  694,  695,
-      693,  702,  694, 1166,  695,  693,  692,  702,  694,    0,
-
-     1169,    0,  693,  696,  696,  696,  693,  702,  694,  695,
-      696,  695,  693, 1170,  702,  696,  695,  693,  702,    0,
-     1166,  695,  693, 1173,  702, 1174,  697, 1169,  697, 1175,
-      696,  696,  696,  697,  702,  697, 1176,  696,  697,  698,
-     1170,  698,  696, 1179,    0, 1180,  698,  698, 1181,    0,
-     1173,  698, 1174,  697,    0,  697, 1175,    0,  699,    0,
-      697, 1184,  697, 1176, 1186,  697,  698, 1187,  698,  699,
-     1179,  699, 1180,  698,  698, 1181,  699,  700,  698,  700,
-        0,  699, 1188,  700,  700,  699,  701, 1189, 1184,  700,
-     1190, 1186,    0,    0, 1187,  701,  699,  701,  699,    0,
-
-     1240, 1243,  701,  699,  700, 1247,  700,  701,  699, 1188,
-      700,  700,    0,  701, 1189, 1248,  700, 1190,  703,  704,
-      703,  704,  701, 1251,  701,  703,  704, 1240, 1243,  701,
-      703,  704, 1247, 1252,  701, 1241, 1241,  705,    0,  705,
-     1253, 1254, 1248,    0,  705,  703,  704,  703,  704,  705,
-     1251, 1258,  703,  704,    0,  706, 1259,  703,  704, 1260,
-     1252, 1262,    0,  706,  705,  706,  705, 1253, 1254, 1289,
-      706,  705, 1290, 1241, 1293,  706,  705,  707, 1258,  707,
-        0,  707,  706, 1259,  707,    0, 1260,    0, 1262,  707,
-      706,  708,  706,  708,    0,  708, 1289,  706,  708, 1290,
-
-     1241, 1293,  706,  708,  707,  709,  707,  709,  707, 1296,
-        0,  707,  709, 1299,  709,    0,  707,  709,  708,  710,
-      708,  710,  708,    0,  711,  708,  710,  710,    0, 1303,
-      708,  710,  709,    0,  709,  711, 1296,  711,    0,  709,
-     1299,  709,  711, 1317,  709,  713,  710,  711,  710,  713,
-      712,  711,    0,  710,  710,  713, 1303, 1321,  710, 1316,
-     1316,  712,  711,  712,  711,  713,    0,    0,  712,  711,
-     1317,  714,  713,  712,  711,  714,  713,  712,    0,  715,
-     1324,  714,  713,  715, 1321, 1330,    0, 1334,  712,  715,
-      712,  714,  713,  716,  715,  712,    0,  716,  714,  715,
-
-      712, 1316,  714,  716,    0,  717,  715, 1324,  714,  717,
-      715, 1338, 1330,  716, 1334,  717,  715, 1340,  714,  718,
-      716,  715,    0,  718,  716,  717,  715,  718, 1316, 1342,
-      716,  719,  717,  718,    0,  719,  717, 1344, 1338, 1346,
-      716,  719,  717,  718, 1340,  720,  718, 1348,    0,  720,
-      718,  719,  717,  721,  718,  720, 1342,  721,  719,    0,
-      718,  721,  719, 1350, 1344,  720, 1346,  721,  719,    0,
-      718, 1352,  720,    0, 1348,  722,  720,  721,  719,  722,
-      721, 1354,  720,  723,  721,  722,  722,  723,  721,  724,
-     1350,  724,  720,  723,  721,  722,  724,    0, 1352, 1323,
-
-     1323,  724,  722,  723,  721,    0,  722, 1356, 1354,    0,
-      723,  727,  722,  722,  723,  727,  724,  725,  724,  725,
-      723,  727,  722,  724,  725,  726,    0,  726,  724,  725,
-      723,  727,  726,  729, 1356,  729,    0,  726,  727,    0,
-      729, 1323,  727,    0,  725,  729,  725,    0,  727,    0,
-        0,  725,  726,  728,  726,    0,  725,  728,  727,  726,
-      729,    0,  729,  728,  726,    0,  728,  729, 1323,  730,
-        0,  730,  729,  728,    0,  730,  730,    0,    0,    0,
-      728,  730, 1265, 1265,  728,  731,    0,  731,    0,    0,
-      728,  731,  731,  728,    0,    0,  730,  731,  730,  733,
-
-      728,  733,  730,  730,    0,    0,  733,    0,  730,    0,
-        0,  733,  731,    0,  731,    0,    0,    0,  731,  731,
-     1265,    0,    0,    0,  731,  732,  733,  734,  733,  734,
-      732,    0,  732,  733,  734,    0,  732,  732,  733,  734,
-        0,  735,  732,  735,    0,    0,    0, 1265,  735,    0,
-        0,    0,  732,  735,  734,    0,  734,  732,    0,  732,
-      736,  734,  736,  732,  732,    0,  734,  736,  735,  732,
-      735,  737,  736,  737,  738,  735,  738,    0,  737,    0,
-      735,  738,  738,  737,    0,    0,  738,  736,    0,  736,
-      739,    0,  739,    0,  736,    0,    0,  739,  737,  736,
-
-      737,  738,  739,  738,  740,  737,  740,    0,  738,  738,
-      737,  740,    0,  738,    0,    0,  740,  739,    0,  739,
-        0,    0,  741,    0,  739,    0,  741,    0,    0,  739,
-      742,  740,  741,  740,  742,  743,    0,    0,  740,  743,
-      742,    0,  741,  740,  744,  743,  744,    0,    0,  741,
-      742,  744,  744,  741,  745,  743,  744,  742,  745,  741,
-      745,  742,  743,    0,    0,  745,  743,  742,    0,  741,
-      745,  744,  743,  744,    0,    0,    0,  742,  744,  744,
-        0,  745,  743,  744,  746,  745,  746,  745,    0,  747,
-      746,  746,  745,  747,  748,    0,  746,  745,  748,  747,
-
-      749,    0,  749,  769,  748,  769,  749,    0,    0,  747,
-      769,  746,  749,  746,  748,  769,  747,  746,  746,    0,
-      747,  748,  749,  746,  750,  748,  747,  749,  750,  749,
-      769,  748,  769,  749,  750,    0,  747,  769,    0,  749,
-        0,  748,  769,  751,  750,    0,    0,  751,    0,  749,
-        0,  750,    0,  751,    0,  750,  751,  774,    0,  774,
-        0,  750,  752,  751,  774,    0,  752,    0,    0,  774,
-      751,  750,  752,    0,  751,  752,    0,  753,    0,    0,
-      751,  753,  752,  751,  774,    0,  774,  753,    0,  752,
-      751,  774,    0,  752,    0,    0,  774,  753,    0,  752,
-
-        0,    0,  752,  754,  753,    0,  755,  754,  753,  752,
-      755,  754,    0,  754,  753,  756,  755,    0,    0,  756,
-        0,    0,    0,  754,  753,  756,  755,    0,    0,    0,
-      754,    0,    0,  755,  754,  756,    0,  755,  754,    0,
-      754,  757,  756,  755,    0,  757,  756,    0,    0,    0,
-      754,  757,  756,  755,    0,  758,  759,    0,    0,  758,
-      759,  757,  756,  758,  759,    0,    0,    0,  757,  758,
-      759,    0,  757,    0,    0,    0,    0,    0,  757,  758,
-      759,    0,  758,  759,    0,  760,  758,  759,  757,  760,
-      758,  759,    0,    0,  761,  760,  758,  759,  761,    0,
-
-        0,    0,    0,    0,  761,  760,  758,  759,    0,    0,
-        0,    0,  760,  762,  761,    0,  760,  762,    0,    0,
-        0,  761,  760,  762,    0,  761,  762,    0,    0,    0,
-        0,  761,  760,  762,    0,  763,    0,    0,  764,  763,
-      762,  761,  764,  763,  762,  763,    0,    0,  764,    0,
-      762,  764,    0,  762,    0,  763,    0,    0,  764,    0,
-      762,    0,  763,    0,  765,  764,  763,  767,  765,  764,
-      763,  767,  763,  766,  765,  764,  766,  767,  764,  765,
-      766,    0,  763,    0,  765,  764,  766,  767,    0,  768,
-        0,  765,    0,  768,  767,  765,  766,  768,  767,  768,
-
-      766,  765,    0,  766,  767,    0,  765,  766,    0,  768,
-        0,  765,    0,  766,  767,  771,  768,    0,  770,  771,
-      768,    0,    0,  766,  768,  771,  768,  770,  772,  770,
-        0,    0,  772,  773,  770,  771,  768,  773,  772,  770,
-        0,    0,  771,  773,    0,  770,  771,  775,  772,    0,
-        0,  775,  771,  773,  770,  772,  770,  775,    0,  772,
-      773,  770,  771,    0,  773,  772,  770,  775,    0,  776,
-      773,    0,  777,  776,  775,  772,  777,  778,  775,  776,
-      773,  778,  777,    0,  775,    0,    0,  778,    0,  776,
-        0,  779,  777,    0,  775,  779,  776,  778,    0,  777,
-
-      776,  779,    0,  777,  778,    0,  776,    0,  778,  777,
-        0,  779,    0,  780,  778,    0,  776,  780,  779,  777,
-        0,    0,  779,  780,  778,  781,    0,  781,  779,  782,
-        0,  782,  781,  780,    0,    0,  782,  781,  779,    0,
-      780,  782,    0,    0,  780,    0,    0,    0,    0,    0,
-      780,    0,  781,    0,  781,  783,  782,  783,  782,  781,
-      780,    0,  783,  782,  781,  784,    0,  783,  782,    0,
-        0,  785,    0,  785,  784,  791,  784,    0,  785,  791,
-      785,  784,  783,  785,  783,  791,  784,    0,    0,  783,
-        0,    0,  784,    0,  783,  791,    0,  786,  785,  786,
-
-      785,  784,  791,  784,  786,  785,  791,  785,  784,  786,
-      785,    0,  791,  784,    0,    0,  787,    0,  787,  788,
-        0,    0,  791,  787,  786,  787,  786,  789,  787,  789,
-      788,  786,  788,    0,  789,  789,  786,  788,    0,  789,
-        0,    0,  788,  787,    0,  787,  788,    0,    0,    0,
-      787,    0,  787,  790,  789,  787,  789,  788,  790,  788,
-      790,  789,  789,  793,  788,  790,  789,  793,  792,  788,
-      790,  792,  792,  793,    0,    0,    0,    0,  792,    0,
-      790,    0,    0,  793,    0,  790,    0,  790,  792,    0,
-      793,    0,  790,    0,  793,  792,    0,  790,  792,  792,
-
-      793,    0,  794,  795,  796,  792,  794,  795,  796,    0,
-      793,    0,  794,  795,  796,  792,  797,    0,  794,    0,
-      797,    0,  794,  795,  796,  798,  797,  798,    0,  794,
-      795,  796,  798,  794,  795,  796,  797,  798,    0,  794,
-      795,  796,    0,  797,    0,  794,    0,  797,    0,  794,
-      795,  796,  798,  797,  798,  899,    0,  899,  900,  798,
-      900,    0,  899,  797,  798,  900,  901,  899,  901,  902,
-      900,  902,    0,  901,    0,    0,  902,    0,  901,    0,
-      901,  902,  899,    0,  899,  900,    0,  900,    0,  899,
-        0,    0,  900,  901,  899,  901,  902,  900,  902,    0,
-
-      901,    0,  903,  902,    0,  901,  903,  901,  902,    0,
-      904,  905,  903,    0,  904,  905,    0,    0,    0,    0,
-      904,  905,  903,    0,    0,    0,    0,    0,    0,  903,
-      904,  905,    0,  903,    0,    0,  906,  904,  905,  903,
-      906,  904,  905,    0,    0,    0,  906,  904,  905,  903,
-        0,  906,    0,    0,  908,  908,  906,  904,  905,  908,
-      907,    0,    0,  906,  907,  908,    0,  906,  907,    0,
-        0,    0,    0,  906,  907,  908,    0,    0,  906,    0,
-        0,  908,  908,  906,  907,    0,  908,  907,  909,    0,
-      909,  907,  908,    0,  909,  907,  910,  911,  910,  911,
-
-      909,  907,  908,  910,  911,  911,    0,    0,  910,  911,
-      909,  907,    0,    0,    0,  909,    0,  909,  912,    0,
-        0,  909,  912,  910,  911,  910,  911,  909,  912,    0,
-      910,  911,  911,    0,    0,  910,  911,  909,  912,    0,
-      913,  915,  914,  915,  913,  912,  914,    0,  915,  912,
-      913,    0,  914,  915,  916,  912,    0,    0,  916,    0,
-      913,    0,  914,    0,  916,  912,    0,  913,  915,  914,
-      915,  913,  917,  914,  916,  915,  917,  913,    0,  914,
-      915,  916,  917,    0,    0,  916,  918,  913,    0,  914,
-      918,  916,  917,    0,  918,  919,    0,  919,    0,  917,
-
-      918,  916,  919,  917,    0,    0,    0,  919,  920,  917,
-      918,    0,  920,  918,    0,    0,  921,  918,  920,  917,
-      921,  918,  919,    0,  919,    0,  921,  918,  920,  919,
-        0,    0,    0,    0,  919,  920,  921,  918,  922,  920,
-        0,    0,  922,  921,    0,  920,  923,  921,  922,    0,
-      923,    0,  924,  921,  924,  920,  923,    0,  922,  924,
-        0,  923,    0,  921,  924,  922,  923,    0,    0,  922,
-      925,    0,  926,  923,  925,  922,  926,  923,    0,  924,
-      925,  924,  926,  923,    0,  922,  924,    0,  923,    0,
-      925,  924,  926,  923,  927,    0,  928,  925,  927,  926,
-
-      928,  925,    0,  926,  927,    0,  928,  925,    0,  926,
-        0,  928,    0,    0,  927,    0,  928,  925,    0,  926,
-      929,  927,    0,  928,  929,  927,    0,  928,    0,    0,
-      929,  927,  930,  928,  930,  929,    0,    0,  928,  930,
-      929,  927,    0,  928,  930,  931,  932,  929,  932,  931,
-      933,  929,  932,    0,  933,  931,    0,  929,  932,  930,
-      933,  930,  929,    0,    0,  931,  930,  929,  932,    0,
-      933,  930,  931,  932,  934,  932,  931,  933,  934,  932,
-        0,  933,  931,    0,  934,  932,  935,  933,    0,  936,
-      935,  936,  931,  936,  934,  932,  935,  933,    0,  936,
-
-      938,  934,  938,    0,  935,  934,  935,  938,    0,  936,
-        0,  934,  938,  935,    0,  937,  936,  935,  936,  937,
-      936,  934,    0,  935,    0,  937,  936,  938,    0,  938,
-      937,  935,    0,  935,  938,  937,  936,    0,  939,  938,
-      939,  941,  937,  941,  940,  939,  937,    0,  941,  940,
-      939,  940,  937,  941,    0,    0,  940,  937,    0,    0,
-        0,  940,  937,    0,    0,  939,    0,  939,  941,    0,
-      941,  940,  939,    0,    0,  941,  940,  939,  940,  942,
-      941,  942,  943,  940,  943,  944,  942,  944,  940,  943,
-      943,  942,  944,  945,  943,  945,    0,  944,    0,    0,
-
-      945,    0,    0,    0,    0,  945,  942,    0,  942,  943,
-        0,  943,  944,  942,  944,    0,  943,  943,  942,  944,
-      945,  943,  945,  946,  944,  946,    0,  945,    0,  947,
-      946,  946,  945,  947,  948,  946,  948,    0,    0,  947,
-        0,  948,    0,    0,  948,    0,  948,    0,    0,  947,
-      946,    0,  946,    0,    0,    0,  947,  946,  946,    0,
-      947,  948,  946,  948,    0,  949,  947,  949,  948,    0,
-        0,  948,  949,  948,    0,    0,  947,  949,  950,  951,
-      950,  951,    0,    0,    0,  950,  951,    0,    0,    0,
-      950,  951,  949,    0,  949,    0,    0,    0,    0,  949,
-
-        0,  952,    0,    0,  949,  950,  951,  950,  951,  952,
-        0,  952,  950,  951,    0,    0,  952,  950,  951,    0,
-      953,  952,  953,  954,    0,  954,    0,  953,  952,    0,
-      954,    0,  953,    0,    0,  954,  952,    0,  952,    0,
-        0,  955,    0,  952,    0,  955,    0,  953,  952,  953,
-      954,  955,  954,  956,  953,  956,  957,  954,    0,  953,
-      956,  955,  954,    0,    0,  956,    0,  957,  955,  957,
-        0,    0,  955,    0,  957,    0,    0,    0,  955,  957,
-      956,    0,  956,  957,    0,    0,    0,  956,  955,    0,
-        0,  958,  956,  958,  957,    0,  957,    0,  958,  958,
-
-      960,  957,  960,  958,    0,  959,  957,  960,  960,  959,
-        0,  959,  960,    0,    0,    0,  959,    0,  958,    0,
-      958,  959,    0,    0,    0,  958,  958,  960,    0,  960,
-      958,    0,  959,    0,  960,  960,  959,    0,  959,  960,
-      961,    0,  961,  959,  962,  963,  962,  961,  959,  963,
-        0,  962,  961,    0,    0,  963,  962,    0,    0,    0,
-      964,    0,    0,    0,  964,  963,    0,  961,    0,  961,
-      964,  962,  963,  962,  961,  964,  963,    0,  962,  961,
-      964,    0,  963,  962,  965,  965,  966,  964,    0,  965,
-      966,  964,  963,    0,    0,  965,  966,  964,    0,  966,
-
-        0,    0,  964,    0,    0,  965,  966,  964,    0,    0,
-        0,  965,  965,  966,  967,  968,  965,  966,  967,  968,
-        0,    0,  965,  966,  967,  968,  966,  967,    0,    0,
-        0,    0,  965,  966,  967,  968,    0,    0,    0,  969,
-      970,  967,  968,  969,  970,  967,  968,    0,    0,  969,
-      970,  967,  968,  971,  967,    0,    0,  971,    0,  969,
-      970,  967,  968,  971,  973,  972,  969,  970,  973,  972,
-      969,  970,  973,  971,    0,  972,  969,  970,  973,    0,
-      971,    0,    0,    0,  971,  972,  969,  970,  973,  974,
-      971,  973,  972,  974,  976,  973,  972,  974,  976,  973,
-
-      971,    0,  972,  974,  976,  973,  975,  975,    0,  976,
-        0,  975,  972,  974,  976,  973,  974,  975,    0,  977,
-      974,  976,  978,  977,  974,  976,  978,  975,    0,  977,
-      974,  976,  978,  975,  975,    0,  976,    0,  975,  977,
-      974,  976,  978,    0,  975,    0,  977,  979,  979,  978,
-      977,    0,  979,  978,  975,    0,  977,  980,  979,  978,
-      981,  980,  981,    0,    0,  980,  977,  981,  979,  978,
-        0,  980,  981,    0,  979,  979,    0,    0,    0,  979,
-        0,  980,    0,    0,  980,  979,    0,  981,  980,  981,
-        0,    0,  980,    0,  981,  979,    0,    0,  980,  981,
-
-      982,    0,  982,  983,    0,  983,  982,  982,  980,    0,
-      983,  983,  982,  984,    0,  983,  986,    0,  986,    0,
-        0,    0,    0,  986,  984,    0,  984,  982,  986,  982,
-      983,  984,  983,  982,  982,    0,  984,  983,  983,  982,
-      984,  985,  983,  986,    0,  986,    0,    0,    0,    0,
-      986,  984,  985,  984,  985,  986,    0,    0,  984,  985,
-      987,    0,  987,  984,  985,  988,    0,  987,  985,  988,
-      990,    0,  987,    0,  990,  988,    0,  989,  989,  985,
-      990,  985,  989,    0,    0,  988,  985,  987,  989,  987,
-      990,  985,  988,    0,  987,    0,  988,  990,  989,  987,
-
-        0,  990,  988,    0,  989,  989,  991,  990,    0,  989,
-      991,  992,  988,  992,    0,  989,  991,  990,  992,    0,
-        0,  993,    0,  992,    0,  989,  991,    0,    0,    0,
-        0,    0,  993,  991,  993,    0,    0,  991,  992,  993,
-      992,    0,    0,  991,  993,  992,    0,  994,  993,    0,
-      992,    0,    0,  991,    0,  995,    0,  995,  994,  993,
-      994,  993,  995,    0,    0,  994,  993,  995,    0,    0,
-      994,  993,    0,    0,  994,    0,  996,    0,  996,    0,
-        0,    0,  995,  996,  995,  994, 1073,  994,  996,  995,
-     1073, 1074,  994,    0,  995, 1074, 1073,  994,    0,    0,
-
-     1075, 1074, 1075,  996,    0,  996, 1073, 1075,    0,    0,
-      996, 1074, 1075, 1073, 1076,  996, 1076, 1073, 1074,    0,
-        0, 1076, 1074, 1073,    0,    0, 1076, 1075, 1074, 1075,
-     1077,    0, 1077, 1073, 1075,    0, 1078, 1077, 1074, 1075,
-     1078, 1076, 1077, 1076,    0, 1079, 1078,    0, 1076, 1079,
-        0,    0,    0, 1076,    0, 1079, 1078, 1077,    0, 1077,
-     1079,    0,    0, 1078, 1077, 1079,    0, 1078, 1080, 1077,
-     1080,    0, 1079, 1078,    0, 1080, 1079, 1081,    0, 1081,
-     1080,    0, 1079, 1078, 1081,    0, 1082, 1079, 1082, 1081,
-        0,    0, 1079, 1082,    0, 1080,    0, 1080, 1082,    0,
-
-        0,    0, 1080,    0, 1081,    0, 1081, 1080,    0,    0,
-     1083, 1081, 1083, 1082,    0, 1082, 1081, 1083,    0, 1084,
-     1082, 1084, 1083,    0,    0, 1082, 1084, 1084, 1085, 1085,
-     1085, 1084,    0,    0,    0, 1085,    0, 1083,    0, 1083,
-     1085,    0,    0,    0, 1083,    0, 1084,    0, 1084, 1083,
-     1086,    0,    0, 1084, 1084, 1085, 1085, 1085, 1084, 1086,
-        0, 1086, 1085, 1087,    0, 1087, 1086, 1085,    0,    0,
-     1087, 1086, 1088,    0, 1088, 1087,    0, 1086,    0, 1088,
-     1088,    0,    0,    0, 1088,    0, 1086,    0, 1086,    0,
-     1087,    0, 1087, 1086,    0,    0,    0, 1087, 1086, 1088,
-
-        0, 1088, 1087, 1089, 1090, 1089, 1088, 1088,    0,    0,
-     1089, 1088,    0,    0, 1090, 1089, 1090, 1091,    0, 1091,
-        0, 1090,    0,    0, 1091,    0, 1090,    0,    0, 1091,
-     1089, 1090, 1089,    0,    0,    0, 1092, 1089,    0,    0,
-        0, 1090, 1089, 1090, 1091, 1092, 1091, 1092, 1090,    0,
-        0, 1091, 1092, 1090,    0,    0, 1091, 1092, 1093, 1094,
-     1093, 1094,    0, 1092,    0, 1093, 1094,    0,    0,    0,
-     1093, 1094, 1092,    0, 1092,    0,    0,    0,    0, 1092,
-        0,    0,    0,    0, 1092, 1093, 1094, 1093, 1094, 1095,
-        0, 1095, 1093, 1094,    0, 1097, 1095, 1093, 1094, 1097,
-
-     1096, 1095, 1096,    0, 1098, 1097,    0, 1096, 1098,    0,
-        0,    0, 1096,    0, 1098, 1097, 1095,    0, 1095,    0,
-        0,    0, 1097, 1095, 1098,    0, 1097, 1096, 1095, 1096,
-        0, 1098, 1097,    0, 1096, 1098, 1099,    0, 1099, 1096,
-     1101, 1098, 1097, 1099, 1101, 1100,    0, 1100, 1099,    0,
-     1101, 1098, 1100, 1100, 1102,    0, 1102, 1100,    0,    0,
-     1101, 1102,    0, 1099,    0, 1099, 1102, 1101,    0,    0,
-     1099, 1101, 1100,    0, 1100, 1099,    0, 1101,    0, 1100,
-     1100, 1102,    0, 1102, 1100,    0,    0, 1101, 1102, 1103,
-     1104, 1103, 1104, 1102,    0,    0, 1103, 1104, 1105,    0,
-
-     1105, 1103, 1104,    0,    0, 1105,    0,    0,    0,    0,
-     1105,    0,    0,    0,    0,    0, 1103, 1104, 1103, 1104,
-        0,    0,    0, 1103, 1104, 1105,    0, 1105, 1103, 1104,
-        0, 1106, 1105, 1106, 1107,    0, 1107, 1105, 1106,    0,
-     1108, 1107, 1108, 1106,    0,    0, 1107, 1108,    0,    0,
-        0,    0, 1108,    0,    0,    0,    0,    0, 1106,    0,
-     1106, 1107,    0, 1107,    0, 1106,    0, 1108, 1107, 1108,
-     1106,    0,    0, 1107, 1108, 1109, 1110, 1109,    0, 1108,
-     1110, 1109, 1109,    0,    0,    0, 1110, 1109,    0,    0,
-     1112, 1111,    0,    0, 1112, 1111, 1110,    0,    0, 1111,
-
-     1112,    0, 1109, 1110, 1109, 1111,    0, 1110, 1109, 1109,
-     1112,    0,    0, 1110, 1109, 1111,    0, 1112, 1111,    0,
-     1113, 1112, 1111, 1110, 1113,    0, 1111, 1112,    0, 1114,
-     1113, 1114, 1111,    0,    0,    0, 1114, 1112,    0,    0,
-     1113, 1114, 1111, 1115,    0, 1115,    0, 1113,    0,    0,
-     1115, 1113, 1116,    0, 1116, 1115, 1114, 1113, 1114, 1116,
-        0,    0,    0, 1114, 1116,    0,    0, 1113, 1114,    0,
-     1115, 1117, 1115, 1117, 1118,    0,    0, 1115, 1117, 1116,
-        0, 1116, 1115, 1117,    0, 1118, 1116, 1118,    0,    0,
-        0, 1116, 1118,    0,    0,    0,    0, 1118, 1117,    0,
-
-     1117, 1118,    0,    0, 1119, 1117, 1119,    0,    0,    0,
-     1117, 1119, 1118, 1120, 1118, 1120, 1119,    0,    0, 1118,
-     1120, 1120,    0,    0, 1118, 1120, 1121,    0,    0,    0,
-     1121, 1119,    0, 1119,    0, 1122, 1121,    0, 1119, 1122,
-     1120,    0, 1120, 1119,    0, 1122, 1121, 1120, 1120, 1125,
-     1123, 1125, 1120, 1121, 1123, 1122, 1125, 1121,    0,    0,
-     1123, 1125, 1122, 1121, 1124,    0, 1122,    0, 1124,    0,
-     1123,    0, 1122, 1121, 1124,    0, 1125, 1123, 1125,    0,
-        0, 1123, 1122, 1125, 1124,    0,    0, 1123, 1125, 1127,
-        0, 1124, 1126,    0, 1126, 1124,    0, 1123, 1127, 1126,
-
-     1127, 1124,    0,    0, 1126, 1127,    0,    0,    0,    0,
-     1127, 1124,    0, 1128,    0,    0, 1127,    0,    0, 1126,
-        0, 1126, 1128,    0, 1128, 1127, 1126, 1127,    0, 1128,
-        0, 1126, 1127,    0, 1128,    0, 1129, 1127, 1129,    0,
-     1128,    0,    0, 1129,    0, 1130,    0, 1130, 1129, 1128,
-        0, 1128, 1130,    0,    0,    0, 1128, 1130,    0,    0,
-        0, 1128,    0, 1129, 1131, 1129, 1131,    0,    0,    0,
-     1129, 1131, 1130,    0, 1130, 1129, 1131,    0, 1132, 1130,
-     1132,    0,    0,    0, 1130, 1132,    0, 1133,    0, 1133,
-     1132, 1131,    0, 1131, 1133,    0,    0,    0, 1131, 1133,
-
-        0,    0,    0, 1131,    0, 1132, 1134, 1132, 1134,    0,
-        0,    0, 1132, 1134, 1133,    0, 1133, 1132, 1134,    0,
-     1135, 1133, 1135, 1136,    0,    0, 1133, 1135,    0,    0,
-        0,    0, 1135, 1134, 1136, 1134, 1136,    0,    0,    0,
-     1134, 1136, 1137,    0,    0, 1134, 1136, 1135,    0, 1135,
-     1136,    0,    0, 1137, 1135, 1137,    0,    0,    0, 1135,
-     1137, 1136,    0, 1136,    0, 1137,    0, 1138, 1136, 1137,
-        0,    0,    0, 1136,    0,    0, 1138, 1139, 1138, 1139,
-     1137,    0, 1137, 1138, 1139, 1139,    0, 1137, 1138, 1139,
-        0,    0, 1137,    0, 1138,    0,    0,    0,    0, 1140,
-
-        0,    0,    0, 1138, 1139, 1138, 1139, 1140,    0, 1140,
-     1138, 1139, 1139,    0, 1140, 1138, 1139,    0, 1141, 1140,
-     1141, 1142,    0, 1142,    0, 1141, 1140,    0, 1142,    0,
-     1141,    0,    0, 1142, 1140,    0, 1140, 1143,    0, 1143,
-        0, 1140,    0,    0, 1143, 1141, 1140, 1141, 1142, 1143,
-     1142, 1144, 1141, 1144,    0, 1142,    0, 1141, 1144,    0,
-     1142,    0,    0, 1144, 1143,    0, 1143, 1145,    0, 1145,
-     1146, 1143, 1146, 1145, 1145,    0, 1143, 1146, 1144, 1145,
-     1144, 1194, 1146, 1194,    0, 1144,    0,    0, 1194,    0,
-     1144,    0,    0, 1194, 1145,    0, 1145, 1146,    0, 1146,
-
-     1145, 1145,    0,    0, 1146, 1195, 1145, 1195, 1194, 1146,
-     1194, 1196, 1195, 1196, 1197, 1194, 1197, 1195, 1196,    0,
-     1194, 1197,    0, 1196,    0,    0, 1197, 1198,    0,    0,
-        0, 1198, 1195,    0, 1195,    0,    0, 1198, 1196, 1195,
-     1196, 1197, 1199, 1197, 1195, 1196, 1199, 1198, 1197,    0,
-     1196, 1200, 1199, 1197, 1198, 1200, 1201, 1201, 1198,    0,
-        0, 1200, 1199,    0, 1198,    0, 1202,    0,    0, 1199,
-     1202, 1200,    0, 1199, 1198,    0, 1202,    0, 1200, 1199,
-        0, 1201, 1200,    0,    0, 1201, 1202,    0, 1200, 1199,
-        0, 1201, 1203, 1202,    0, 1204, 1203, 1202, 1200, 1204,
-
-     1203, 1201,    0, 1202,    0, 1204, 1203,    0, 1201,    0,
-     1205,    0, 1201, 1202, 1205, 1204, 1203,    0, 1201, 1203,
-     1205,    0, 1204, 1203,    0, 1206, 1204, 1203, 1201, 1206,
-     1205,    0, 1204, 1203, 1207, 1206,    0, 1205, 1207,    0,
-        0, 1205, 1204, 1203, 1207, 1206, 1212, 1205, 1212, 1207,
-        0,    0, 1206, 1212, 1207,    0, 1206, 1205, 1212, 1209,
-        0, 1207, 1206, 1209, 1208, 1207, 1208,    0, 1208, 1209,
-        0, 1207, 1206, 1212, 1208, 1212, 1207,    0, 1210, 1209,
-     1212, 1207, 1210,    0, 1208, 1212, 1209, 1213, 1210, 1213,
-     1209, 1208,    0, 1208, 1213, 1208, 1209,    0, 1210, 1213,
-
-     1211, 1208,    0,    0, 1211, 1210, 1209,    0,    0, 1210,
-     1211, 1208,    0,    0, 1213, 1210, 1213, 1214,    0, 1214,
-     1211, 1213,    0,    0, 1214, 1210, 1213, 1211, 1216, 1214,
-     1216, 1211, 1215,    0,    0, 1216,    0, 1211,    0,    0,
-     1216, 1215,    0, 1215, 1214,    0, 1214, 1211, 1215,    0,
-        0, 1214,    0, 1215,    0, 1216, 1214, 1216,    0, 1215,
-        0,    0, 1216,    0, 1217,    0, 1217, 1216, 1215,    0,
-     1215, 1217, 1218,    0, 1218, 1215, 1217, 1220,    0, 1218,
-     1215, 1220, 1221, 1219, 1218, 1219, 1221, 1220,    0, 1219,
-     1219, 1217, 1221, 1217,    0, 1219,    0, 1220, 1217, 1218,
-
-        0, 1218, 1221, 1217, 1220,    0, 1218,    0, 1220, 1221,
-     1219, 1218, 1219, 1221, 1220,    0, 1219, 1219, 1222, 1221,
-     1222, 1223, 1219, 1223, 1220, 1222,    0,    0, 1223, 1221,
-     1222,    0, 1224, 1223, 1224,    0,    0,    0,    0, 1224,
-        0,    0, 1225,    0, 1224, 1222,    0, 1222, 1223,    0,
-     1223, 1225, 1222, 1225,    0, 1223,    0, 1222, 1225, 1224,
-     1223, 1224,    0, 1225,    0, 1226, 1224, 1226,    0, 1225,
-        0, 1224, 1226, 1226,    0,    0,    0, 1226, 1225,    0,
-     1225,    0,    0, 1227, 1227, 1225, 1227,    0,    0,    0,
-     1225, 1227, 1226,    0, 1226, 1228, 1227, 1228,    0, 1226,
-
-     1226,    0, 1228,    0, 1226,    0,    0, 1228,    0,    0,
-     1227, 1227,    0, 1227, 1229,    0, 1229,    0, 1227,    0,
-        0, 1229, 1228, 1227, 1228, 1230, 1229, 1230, 1231, 1228,
-     1231,    0, 1230, 1230, 1228, 1231,    0, 1230,    0,    0,
-     1231, 1229,    0, 1229, 1232,    0, 1232,    0, 1229,    0,
-     1232, 1232, 1230, 1229, 1230, 1231, 1232, 1231,    0, 1230,
-     1230,    0, 1231,    0, 1230,    0,    0, 1231, 1233, 1233,
-     1233, 1232,    0, 1232, 1234, 1233, 1234, 1232, 1232,    0,
-     1233, 1234, 1234, 1232, 1235,    0, 1234,    0, 1235,    0,
-        0,    0,    0,    0, 1235, 1233, 1233, 1233,    0,    0,
-
-        0, 1234, 1233, 1234, 1235,    0, 1236, 1233, 1234, 1234,
-     1236, 1235,    0, 1234, 1237, 1235, 1236,    0, 1237, 1238,
-        0, 1235,    0, 1238, 1237,    0, 1236,    0,    0, 1238,
-        0, 1235, 1266, 1236, 1237,    0, 1266, 1236,    0, 1238,
-        0, 1237, 1266, 1236, 1264, 1237, 1238,    0, 1264,    0,
-     1238, 1237, 1266, 1236, 1264,    0, 1238, 1264, 1267, 1266,
-        0, 1237, 1267, 1266, 1264,    0, 1238,    0, 1267, 1266,
-     1268, 1264, 1269, 1267, 1268, 1264, 1269,    0, 1267, 1266,
-     1268, 1264, 1269,    0, 1264, 1267,    0,    0,    0, 1267,
-     1268, 1264, 1269,    0, 1270, 1267,    0, 1268, 1270, 1269,
-
-     1267, 1268,    0, 1269, 1270, 1267, 1271, 1268, 1271, 1269,
-     1271,    0,    0,    0, 1270,    0, 1271, 1268,    0, 1269,
-        0, 1270,    0,    0, 1272, 1270, 1271,    0, 1272,    0,
-        0, 1270, 1273, 1271, 1272, 1271, 1273, 1271,    0, 1272,
-        0, 1270, 1273, 1271, 1272,    0,    0,    0,    0,    0,
-     1274, 1272, 1273, 1271, 1274, 1272,    0,    0,    0, 1273,
-     1274, 1272,    0, 1273,    0,    0, 1272,    0,    0, 1273,
-     1274, 1272, 1275,    0,    0,    0, 1275, 1274,    0, 1273,
-        0, 1274, 1275, 1277, 1276, 1275, 1276, 1274, 1277,    0,
-     1277, 1276, 1275,    0, 1278, 1277, 1276, 1274, 1278, 1275,
-
-     1277,    0,    0, 1275, 1278,    0,    0,    0,    0, 1275,
-     1277, 1276, 1275, 1276, 1278, 1277, 1279, 1277, 1276, 1275,
-     1279, 1278, 1277, 1276, 1280, 1278, 1279, 1277, 1280, 1281,
-        0, 1278,    0, 1281, 1280,    0, 1279,    0, 1282, 1281,
-        0, 1278, 1282, 1279, 1280,    0,    0, 1279, 1282, 1281,
-        0, 1280,    0, 1279,    0, 1280, 1281,    0, 1282,    0,
-     1281, 1280,    0, 1279,    0, 1282, 1281,    0, 1283, 1282,
-     1284, 1280, 1283, 1285, 1284, 1282, 1281, 1285, 1283, 1283,
-     1284, 1286, 1286, 1285,    0, 1282, 1286,    0, 1283,    0,
-     1284,    0, 1286, 1285,    0, 1283,    0, 1284,    0, 1283,
-
-     1285, 1284, 1286,    0, 1285, 1283, 1283, 1284, 1286, 1286,
-     1285, 1302, 1302, 1286, 1304, 1283,    0, 1284, 1304, 1286,
-     1285,    0, 1305, 1306, 1304,    0, 1305, 1306,    0, 1286,
-        0,    0, 1305, 1306, 1304,    0, 1302,    0,    0,    0,
-     1302, 1304, 1305, 1306,    0, 1304, 1302,    0,    0, 1305,
-     1306, 1304,    0, 1305, 1306,    0, 1302,    0,    0, 1305,
-     1306, 1304,    0, 1302, 1307,    0, 1307, 1302,    0, 1305,
-     1306, 1307, 1308, 1302, 1308, 1309, 1307, 1309, 1310, 1308,
-     1310,    0, 1309, 1302, 1308, 1310,    0, 1309,    0,    0,
-     1310, 1307,    0, 1307,    0,    0,    0,    0, 1307, 1308,
-
-        0, 1308, 1309, 1307, 1309, 1310, 1308, 1310, 1311, 1309,
-     1311, 1308, 1310,    0, 1309, 1311, 1312, 1310, 1312,    0,
-     1311, 1313,    0, 1312,    0, 1313, 1314,    0, 1312, 1325,
-     1314, 1313,    0, 1325, 1326, 1311, 1314, 1311, 1326, 1325,
-        0, 1313, 1311, 1312, 1326, 1312, 1314, 1311, 1313, 1325,
-     1312,    0, 1313, 1314, 1326, 1312, 1325, 1314, 1313,    0,
-     1325, 1326,    0, 1314,    0, 1326, 1325,    0, 1313,    0,
-     1327, 1326,    0, 1314, 1327, 1328, 1325, 1328,    0,    0,
-     1327, 1326, 1328,    0, 1336,    0, 1336, 1328,    0,    0,
-     1327, 1336,    0,    0,    0,    0, 1336, 1327,    0,    0,
-
-        0, 1327, 1328,    0, 1328,    0,    0, 1327,    0, 1328,
-        0, 1336,    0, 1336, 1328,    0,    0, 1327, 1336,    0,
-        0,    0,    0, 1336, 1368, 1368, 1368, 1368, 1368, 1369,
-        0,    0, 1369, 1369, 1371, 1371, 1371,    0, 1371, 1372,
-        0, 1372, 1372, 1372, 1373,    0, 1373, 1373, 1373, 1374,
-        0, 1374, 1374, 1374, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367
+        1,    1,    1,    1,    1,    1,    1,    3,    4,    7,
+        7,    8,    8,   13,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   13,   15,   15,   15,   15,   15,
+
+       15,   15,   15,   15,   15,   15,   16,   16,   20,   21,
+       28,   25,   20,   29,   42,  692,   21,   25,   20,   47,
+       47,  587,  587,   21,  650,  650,   21,  687,   20,   21,
+      686,  684,  682,  680,   40,   20,   21,   28,   25,   20,
+       29,   42,   40,   21,   25,   20,   60,    3,    4,   19,
+       21,   19,   26,   21,   22,   20,   21,   19,   22,   19,
+       26,   40,   22,   19,   19,   23,   26,   23,   22,   40,
+       61,   22,   23,   60,  678,   64,   19,   23,   19,   26,
+      676,   22,  674,  670,   19,   22,   19,   26,  663,   22,
+       19,   19,   23,   26,   23,   22,   30,   61,   22,   23,
+
+       30,   27,   64,  649,   23,   24,   30,   27,   27,   27,
+       32,   31,  625,   24,   27,   31,   24,   41,   41,   24,
+      579,   31,   24,   30,   32,   24,   65,   30,   27,  504,
+       32,   32,   24,   30,   27,   27,   27,   32,   31,   34,
+       24,   27,   31,   24,   41,   41,   24,   33,   31,   24,
+       34,   32,   24,   65,   67,   33,   34,   32,   32,   33,
+       68,   36,   33,   33,   62,   36,   34,   71,   39,   36,
+       39,   74,   62,   39,   33,   36,  405,   34,  277,   78,
+      150,   67,   33,   34,   51,   79,   33,   68,   36,   33,
+       33,   62,   36,   49,   71,   39,   36,   39,   74,   62,
+
+       39,   63,   36,   37,   63,   37,   78,   70,   37,   45,
+       43,   37,   79,   37,   70,   37,   37,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   18,   63,   73,
+       37,   63,   37,   80,   70,   37,   66,   66,   37,   73,
+       37,   70,   37,   37,   38,   72,   72,   72,   38,   72,
+       66,   38,   38,   82,   75,   84,   73,   85,   38,   75,
+       80,   38,   17,   66,   66,    9,   73,    5,    0,    0,
+        0,   38,   72,   72,   72,   38,   72,   66,   38,   38,
+       82,   75,   84,    0,   85,   38,   75,    0,   38,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   54,
+
+       54,   54,   54,   54,   54,   54,   54,   54,   54,   54,
+       76,   86,   76,   77,   77,   76,   81,   81,   83,   87,
+       83,   76,   88,   89,   83,   87,   90,   91,   76,   92,
+       93,   83,   92,   94,   96,   83,   97,   76,   86,   76,
+       77,   77,   76,   81,   81,   83,   87,   83,   76,   88,
+       89,   83,   87,   90,   91,   76,   92,   93,   83,   92,
+       94,   96,   83,   97,   98,   99,  100,  101,  102,  103,
+      104,  103,  104,  105,   98,  106,  107,  108,  109,   98,
+       98,  109,  110,  104,  111,  112,  114,  115,  116,  117,
+      118,   98,   99,  100,  101,  102,  103,  104,  103,  104,
+
+      105,   98,  106,  107,  108,  109,   98,   98,  109,  110,
+      104,  111,  112,  114,  115,  116,  117,  118,  119,  120,
+      121,  122,  119,  123,  124,  121,  125,  126,  127,  128,
+      129,  130,  131,  121,  123,  125,    0,  133,  121,  134,
+      135,  126,    0,  125,    0,  119,  120,  121,  122,  119,
+      123,  124,  121,  125,  126,  127,  128,  129,  130,  131,
+      121,  123,  125,  132,  133,  121,  134,  135,  126,  136,
+      125,  137,  138,  139,  132,  141,  140,  142,  137,  143,
+      144,  137,  140,  153,  155,  156,  158,  160,  141,  136,
+      132,    0,    0,    0,    0,    0,  136,    0,  137,  138,
+
+      139,  132,  141,  140,  142,  137,  143,  144,  137,  140,
+      153,  155,  156,  158,  160,  141,  136,  151,  151,  151,
+      151,  151,  151,  151,  151,  151,  151,  161,  162,  163,
+      164,  165,  166,  167,  166,  168,  169,  170,  171,  172,
+      173,  174,  175,  176,  177,  178,  179,    0,  181,  166,
+      182,  183,  184,  185,  161,  162,  163,  164,  165,  166,
+      167,  166,  168,  169,  170,  171,  172,  173,  174,  175,
+      176,  177,  178,  179,  180,  181,  166,  182,  183,  184,
+      185,  186,  187,  189,  190,  191,  192,  193,  194,  180,
+      195,  196,  197,  198,  199,  200,  201,  202,  203,  204,
+
+      205,  180,  199,  206,  207,  208,  209,  210,  186,  187,
+      189,  190,  191,  192,  193,  194,  180,  195,  196,  197,
+      198,  199,  200,  201,  202,  203,  204,  205,  211,  199,
+      206,  207,  208,  209,  210,  212,  213,  214,  215,  217,
+      218,  219,  220,  221,  222,  223,  213,  224,  225,  226,
+      228,  229,  230,  221,  231,  211,  232,  233,  234,  236,
+        0,  238,  212,  213,  214,  215,  217,  218,  219,  220,
+      221,  222,  223,  213,  224,  225,  226,  228,  229,  230,
+      221,  231,  235,  232,  233,  234,  236,  237,  238,  239,
+      240,  241,  242,  243,  244,  245,  246,  247,  248,  249,
+
+      237,  235,  251,  252,  253,  254,  255,  256,  257,  235,
+      258,  259,  260,  261,  237,  263,  239,  240,  241,  242,
+      243,  244,  245,  246,  247,  248,  249,  237,  235,  251,
+      252,  253,  254,  255,  256,  257,  264,  258,  259,  260,
+      261,  265,  263,  267,  266,  264,  266,  268,  269,  270,
+      271,  272,  273,  274,  275,  276,  278,  274,  279,  280,
+      281,  282,  283,  264,  284,  285,  286,  288,  265,  291,
+      267,  266,  264,  266,  268,  269,  270,  271,  272,  273,
+      274,  275,  276,  278,  274,  279,  280,  281,  282,  283,
+      292,  284,  285,  286,  288,  293,  291,  294,  296,  297,
+
+      298,  299,  301,  302,  303,  304,  305,  306,  307,  308,
+      309,  312,  313,  314,  315,  316,  317,  292,  318,  319,
+      321,  322,  293,  323,  294,  296,  297,  298,  299,  301,
+      302,  303,  304,  305,  306,  307,  308,  309,  312,  313,
+      314,  315,  316,  317,  324,  318,  319,  321,  322,  327,
+      323,  328,  330,  332,  333,  334,  335,  336,  337,  338,
+      340,  344,  346,  347,  349,  350,  350,  351,  352,  353,
+      338,  324,  355,  356,  357,  358,  327,  360,  328,  330,
+      332,  333,  334,  335,  336,  337,  338,  340,  344,  346,
+      347,  349,  350,  350,  351,  352,  353,  338,  361,  355,
+
+      356,  357,  358,  363,  360,  364,  365,  366,  368,  369,
+      370,  371,  372,  374,  375,  376,  377,  380,  381,  382,
+      383,  384,  387,  388,  390,  361,  391,  392,  393,  394,
+      363,  395,  364,  365,  366,  368,  369,  370,  371,  372,
+      374,  375,  376,  377,  380,  381,  382,  383,  384,  387,
+      388,  390,  396,  391,  392,  393,  394,  397,  395,  398,
+      400,  402,  404,  408,  410,  412,  413,  414,  415,  416,
+      417,  418,  419,  420,  422,  423,  424,  425,  426,  396,
+      427,  429,  430,  431,  397,  432,  398,  400,  402,  404,
+      408,  410,  412,  413,  414,  415,  416,  417,  418,  419,
+
+      420,  422,  423,  424,  425,  426,  433,  427,  429,  430,
+      431,  434,  432,  435,  436,  437,  438,  439,  442,  443,
+      444,  445,  446,  447,  450,  453,  454,  455,  456,  459,
+      455,  462,  463,  433,  464,  465,  466,  467,  434,  470,
+      435,  436,  437,  438,  439,  442,  443,  444,  445,  446,
+      447,  450,  453,  454,  455,  456,  459,  455,  462,  463,
+      471,  464,  465,  466,  467,  472,  470,  473,  474,  476,
+      477,  478,  480,  481,  482,  483,  485,  486,  487,  488,
+      489,  490,  491,  492,  493,  495,  496,  471,  497,  499,
+      500,  501,  472,  505,  473,  474,  476,  477,  478,  480,
+
+      481,  482,  483,  485,  486,  487,  488,  489,  490,  491,
+      492,  493,  495,  496,  507,  497,  499,  500,  501,  509,
+      505,  510,  511,  512,  514,  516,  517,  518,  519,  520,
+      522,  524,  526,  529,  531,  532,  533,  534,  541,  542,
+      543,  507,  546,  548,  550,  552,  509,  553,  510,  511,
+      512,  514,  516,  517,  518,  519,  520,  522,  524,  526,
+      529,  531,  532,  533,  534,  541,  542,  543,  554,  546,
+      548,  550,  552,  555,  553,  556,  557,  559,  560,  561,
+      562,  564,  566,  568,  569,  570,  571,  572,  577,  578,
+      584,  588,  589,  592,  593,  554,  594,  598,  601,  602,
+
+      555,  605,  556,  557,  559,  560,  561,  562,  564,  566,
+      568,  569,  570,  571,  572,  577,  578,  584,  588,  589,
+      592,  593,  606,  594,  598,  601,  602,  607,  605,  608,
+      611,  612,  613,  616,  618,  619,  620,  621,  622,  626,
+      627,  627,  629,  633,  634,  637,  638,  639,  640,  606,
+      644,    0,  645,  646,  607,  648,  608,  611,  612,  613,
+      616,  618,  619,  620,  621,  622,  626,  651,  652,  629,
+      633,  634,  637,  638,  639,  640,  655,  644,  627,  645,
+      646,  658,  648,  661,  664,  664,  665,  669,  671,  675,
+      677,  679,  681,  683,  651,  652,    0,    0,    0,    0,
+
+        0,    0,    0,  655,    0,  627,    0,    0,  658,    0,
+      661,    0,    0,  665,  669,  671,  675,  677,  679,  681,
+      683,    0,    0,    0,    0,    0,  664,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,  664,  690,  690,  690,  690,  690,  690,
+      691,    0,    0,  691,  691,  693,  693,  693,    0,  693,
+      694,    0,  694,  694,  694,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -2888,6 +1245,7 @@ static yyconst flex_int16_t yy_chk[9032] =
 
 static thread_local std::stringstream strbuf;
 
+#line 1249 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -2897,15 +1255,13 @@ static thread_local std::stringstream strbuf;
 /* performance tweeks */
 /* other flags */
 /* %option nodefault */
-
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 2905 "flex_lexer.cpp"
+#line 1262 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
-#define COMMENT 2
 
 #ifndef YY_NO_UNISTD_H
 /* Special case for "unistd.h", since it is non-ANSI. We include it way
@@ -2957,7 +1313,7 @@ struct yyguts_t
 
     }; /* end struct yyguts_t */
 
-static int yy_init_globals (yyscan_t yyscanner );
+static int yy_init_globals ( yyscan_t yyscanner );
 
     /* This must go here because YYSTYPE and YYLTYPE are included
      * from bison output in section 1.*/
@@ -2965,50 +1321,50 @@ static int yy_init_globals (yyscan_t yyscanner );
     
     #    define yylloc yyg->yylloc_r
     
-int hsql_lex_init (yyscan_t* scanner);
+int yylex_init (yyscan_t* scanner);
 
-int hsql_lex_init_extra (YY_EXTRA_TYPE user_defined,yyscan_t* scanner);
+int yylex_init_extra ( YY_EXTRA_TYPE user_defined, yyscan_t* scanner);
 
 /* Accessor methods to globals.
    These are made visible to non-reentrant scanners for convenience. */
 
-int hsql_lex_destroy (yyscan_t yyscanner );
+int yylex_destroy ( yyscan_t yyscanner );
 
-int hsql_get_debug (yyscan_t yyscanner );
+int yyget_debug ( yyscan_t yyscanner );
 
-void hsql_set_debug (int debug_flag ,yyscan_t yyscanner );
+void yyset_debug ( int debug_flag , yyscan_t yyscanner );
 
-YY_EXTRA_TYPE hsql_get_extra (yyscan_t yyscanner );
+YY_EXTRA_TYPE yyget_extra ( yyscan_t yyscanner );
 
-void hsql_set_extra (YY_EXTRA_TYPE user_defined ,yyscan_t yyscanner );
+void yyset_extra ( YY_EXTRA_TYPE user_defined , yyscan_t yyscanner );
 
-FILE *hsql_get_in (yyscan_t yyscanner );
+FILE *yyget_in ( yyscan_t yyscanner );
 
-void hsql_set_in  (FILE * _in_str ,yyscan_t yyscanner );
+void yyset_in  ( FILE * _in_str , yyscan_t yyscanner );
 
-FILE *hsql_get_out (yyscan_t yyscanner );
+FILE *yyget_out ( yyscan_t yyscanner );
 
-void hsql_set_out  (FILE * _out_str ,yyscan_t yyscanner );
+void yyset_out  ( FILE * _out_str , yyscan_t yyscanner );
 
-			int hsql_get_leng (yyscan_t yyscanner );
+			int yyget_leng ( yyscan_t yyscanner );
 
-char *hsql_get_text (yyscan_t yyscanner );
+char *yyget_text ( yyscan_t yyscanner );
 
-int hsql_get_lineno (yyscan_t yyscanner );
+int yyget_lineno ( yyscan_t yyscanner );
 
-void hsql_set_lineno (int _line_number ,yyscan_t yyscanner );
+void yyset_lineno ( int _line_number , yyscan_t yyscanner );
 
-int hsql_get_column  (yyscan_t yyscanner );
+int yyget_column  ( yyscan_t yyscanner );
 
-void hsql_set_column (int _column_no ,yyscan_t yyscanner );
+void yyset_column ( int _column_no , yyscan_t yyscanner );
 
-YYSTYPE * hsql_get_lval (yyscan_t yyscanner );
+YYSTYPE * yyget_lval ( yyscan_t yyscanner );
 
-void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
+void yyset_lval ( YYSTYPE * yylval_param , yyscan_t yyscanner );
 
-       YYLTYPE *hsql_get_lloc (yyscan_t yyscanner );
+       YYLTYPE *yyget_lloc ( yyscan_t yyscanner );
     
-        void hsql_set_lloc (YYLTYPE * yylloc_param ,yyscan_t yyscanner );
+        void yyset_lloc ( YYLTYPE * yylloc_param , yyscan_t yyscanner );
     
 /* Macros after this point can all be overridden by user definitions in
  * section 1.
@@ -3016,9 +1372,9 @@ void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
 
 #ifndef YY_SKIP_YYWRAP
 #ifdef __cplusplus
-extern "C" int hsql_wrap (yyscan_t yyscanner );
+extern "C" int yywrap ( yyscan_t yyscanner );
 #else
-extern int hsql_wrap (yyscan_t yyscanner );
+extern int yywrap ( yyscan_t yyscanner );
 #endif
 #endif
 
@@ -3027,19 +1383,18 @@ extern int hsql_wrap (yyscan_t yyscanner );
 #endif
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char *,yyconst char *,int ,yyscan_t yyscanner);
+static void yy_flex_strncpy ( char *, const char *, int , yyscan_t yyscanner);
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * ,yyscan_t yyscanner);
+static int yy_flex_strlen ( const char * , yyscan_t yyscanner);
 #endif
 
 #ifndef YY_NO_INPUT
-
 #ifdef __cplusplus
-static int yyinput (yyscan_t yyscanner );
+static int yyinput ( yyscan_t yyscanner );
 #else
-static int input (yyscan_t yyscanner );
+static int input ( yyscan_t yyscanner );
 #endif
 
 #endif
@@ -3124,10 +1479,10 @@ static int input (yyscan_t yyscanner );
 #ifndef YY_DECL
 #define YY_DECL_IS_OURS 1
 
-extern int hsql_lex \
-               (YYSTYPE * yylval_param,YYLTYPE * yylloc_param ,yyscan_t yyscanner);
+extern int yylex \
+               (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner);
 
-#define YY_DECL int hsql_lex \
+#define YY_DECL int yylex \
                (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner)
 #endif /* !YY_DECL */
 
@@ -3177,19 +1532,19 @@ YY_DECL
 			yyout = stdout;
 
 		if ( ! YY_CURRENT_BUFFER ) {
-			hsql_ensure_buffer_stack (yyscanner);
+			yyensure_buffer_stack (yyscanner);
 			YY_CURRENT_BUFFER_LVALUE =
-				hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner);
+				yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner);
 		}
 
-		hsql__load_buffer_state(yyscanner );
+		yy_load_buffer_state( yyscanner );
 		}
 
 	{
-#line 57 "flex_lexer.l"
+#line 55 "flex_lexer.l"
 
 
-#line 3193 "flex_lexer.cpp"
+#line 1548 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -3216,13 +1571,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 1368 )
-					yy_c = yy_meta[(unsigned int) yy_c];
+				if ( yy_current_state >= 690 )
+					yy_c = yy_meta[yy_c];
 				}
-			yy_current_state = yy_nxt[yy_base[yy_current_state] + (flex_int16_t) yy_c];
+			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 1367 );
+		while ( yy_current_state != 689 );
 		yy_cp = yyg->yy_last_accepting_cpos;
 		yy_current_state = yyg->yy_last_accepting_state;
 
@@ -3244,899 +1599,888 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 59 "flex_lexer.l"
-BEGIN(COMMENT);
+#line 57 "flex_lexer.l"
+/* skip comment until the end of the line */;
 	YY_BREAK
 case 2:
+/* rule 2 can match eol */
 YY_RULE_SETUP
-#line 60 "flex_lexer.l"
-/* skipping comment content until a end of line is read */;
+#line 59 "flex_lexer.l"
+/* skip whitespace */;
 	YY_BREAK
 case 3:
-/* rule 3 can match eol */
 YY_RULE_SETUP
 #line 61 "flex_lexer.l"
-BEGIN(INITIAL);
+TOKEN(ADD)
 	YY_BREAK
 case 4:
-/* rule 4 can match eol */
 YY_RULE_SETUP
-#line 63 "flex_lexer.l"
-/* skip whitespace */;
+#line 62 "flex_lexer.l"
+TOKEN(AFTER)
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 65 "flex_lexer.l"
-TOKEN(ADD)
+#line 63 "flex_lexer.l"
+TOKEN(ALL)
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 66 "flex_lexer.l"
-TOKEN(AFTER)
+#line 64 "flex_lexer.l"
+TOKEN(ALTER)
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 67 "flex_lexer.l"
-TOKEN(ALL)
+#line 65 "flex_lexer.l"
+TOKEN(ANALYZE)
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 68 "flex_lexer.l"
-TOKEN(ALTER)
+#line 66 "flex_lexer.l"
+TOKEN(AND)
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 69 "flex_lexer.l"
-TOKEN(ANALYZE)
+#line 67 "flex_lexer.l"
+TOKEN(ARRAY)
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 70 "flex_lexer.l"
-TOKEN(AND)
+#line 68 "flex_lexer.l"
+TOKEN(AS)
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 71 "flex_lexer.l"
-TOKEN(ARRAY)
+#line 69 "flex_lexer.l"
+TOKEN(ASC)
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 72 "flex_lexer.l"
-TOKEN(AS)
+#line 70 "flex_lexer.l"
+TOKEN(BEFORE)
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 73 "flex_lexer.l"
-TOKEN(ASC)
+#line 71 "flex_lexer.l"
+TOKEN(BEGIN)
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 74 "flex_lexer.l"
-TOKEN(BEFORE)
+#line 72 "flex_lexer.l"
+TOKEN(BETWEEN)
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 75 "flex_lexer.l"
-TOKEN(BEGIN)
+#line 73 "flex_lexer.l"
+TOKEN(BIGINT)
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 76 "flex_lexer.l"
-TOKEN(BETWEEN)
+#line 74 "flex_lexer.l"
+TOKEN(BOOLEAN)
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 77 "flex_lexer.l"
-TOKEN(BIGINT)
+#line 75 "flex_lexer.l"
+TOKEN(BY)
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 78 "flex_lexer.l"
-TOKEN(BOOLEAN)
+#line 76 "flex_lexer.l"
+TOKEN(CALL)
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 79 "flex_lexer.l"
-TOKEN(BY)
+#line 77 "flex_lexer.l"
+TOKEN(CASCADE)
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 80 "flex_lexer.l"
-TOKEN(CALL)
+#line 78 "flex_lexer.l"
+TOKEN(CASE)
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 81 "flex_lexer.l"
-TOKEN(CASCADE)
+#line 79 "flex_lexer.l"
+TOKEN(CAST)
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 82 "flex_lexer.l"
-TOKEN(CASE)
+#line 80 "flex_lexer.l"
+TOKEN(CHAR)
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 83 "flex_lexer.l"
-TOKEN(CAST)
+#line 81 "flex_lexer.l"
+TOKEN(COLUMN)
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 84 "flex_lexer.l"
-TOKEN(CHAR)
+#line 82 "flex_lexer.l"
+TOKEN(COLUMNS)
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 85 "flex_lexer.l"
-TOKEN(COLUMN)
+#line 83 "flex_lexer.l"
+TOKEN(COMMIT)
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 86 "flex_lexer.l"
-TOKEN(COLUMNS)
+#line 84 "flex_lexer.l"
+TOKEN(CONTROL)
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 87 "flex_lexer.l"
-TOKEN(COMMIT)
+#line 85 "flex_lexer.l"
+TOKEN(COPY)
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 88 "flex_lexer.l"
-TOKEN(CONTROL)
+#line 86 "flex_lexer.l"
+TOKEN(CREATE)
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 89 "flex_lexer.l"
-TOKEN(COPY)
-	YY_BREAK
-case 30:
-YY_RULE_SETUP
-#line 90 "flex_lexer.l"
-TOKEN(CREATE)
-	YY_BREAK
-case 31:
-YY_RULE_SETUP
-#line 91 "flex_lexer.l"
+#line 87 "flex_lexer.l"
 TOKEN(CROSS)
 	YY_BREAK
-case 32:
+case 30:
 YY_RULE_SETUP
-#line 92 "flex_lexer.l"
+#line 88 "flex_lexer.l"
 TOKEN(DATE)
 	YY_BREAK
-case 33:
+case 31:
 YY_RULE_SETUP
-#line 93 "flex_lexer.l"
+#line 89 "flex_lexer.l"
 TOKEN(DATETIME)
 	YY_BREAK
-case 34:
+case 32:
 YY_RULE_SETUP
-#line 94 "flex_lexer.l"
+#line 90 "flex_lexer.l"
 TOKEN(DAY)
 	YY_BREAK
-case 35:
+case 33:
 YY_RULE_SETUP
-#line 95 "flex_lexer.l"
+#line 91 "flex_lexer.l"
 TOKEN(DAYS)
 	YY_BREAK
-case 36:
+case 34:
 YY_RULE_SETUP
-#line 96 "flex_lexer.l"
+#line 92 "flex_lexer.l"
 TOKEN(DEALLOCATE)
 	YY_BREAK
-case 37:
+case 35:
 YY_RULE_SETUP
-#line 97 "flex_lexer.l"
+#line 93 "flex_lexer.l"
 TOKEN(DECIMAL)
 	YY_BREAK
-case 38:
+case 36:
 YY_RULE_SETUP
-#line 98 "flex_lexer.l"
+#line 94 "flex_lexer.l"
 TOKEN(DEFAULT)
 	YY_BREAK
-case 39:
+case 37:
 YY_RULE_SETUP
-#line 99 "flex_lexer.l"
+#line 95 "flex_lexer.l"
 TOKEN(DELETE)
 	YY_BREAK
-case 40:
+case 38:
 YY_RULE_SETUP
-#line 100 "flex_lexer.l"
+#line 96 "flex_lexer.l"
 TOKEN(DELTA)
 	YY_BREAK
-case 41:
+case 39:
 YY_RULE_SETUP
-#line 101 "flex_lexer.l"
+#line 97 "flex_lexer.l"
 TOKEN(DESC)
 	YY_BREAK
-case 42:
+case 40:
 YY_RULE_SETUP
-#line 102 "flex_lexer.l"
+#line 98 "flex_lexer.l"
 TOKEN(DESCRIBE)
 	YY_BREAK
-case 43:
+case 41:
 YY_RULE_SETUP
-#line 103 "flex_lexer.l"
+#line 99 "flex_lexer.l"
 TOKEN(DIRECT)
 	YY_BREAK
-case 44:
+case 42:
 YY_RULE_SETUP
-#line 104 "flex_lexer.l"
+#line 100 "flex_lexer.l"
 TOKEN(DISTINCT)
 	YY_BREAK
-case 45:
+case 43:
 YY_RULE_SETUP
-#line 105 "flex_lexer.l"
+#line 101 "flex_lexer.l"
 TOKEN(DOUBLE)
 	YY_BREAK
-case 46:
+case 44:
 YY_RULE_SETUP
-#line 106 "flex_lexer.l"
+#line 102 "flex_lexer.l"
 TOKEN(DROP)
 	YY_BREAK
-case 47:
+case 45:
 YY_RULE_SETUP
-#line 107 "flex_lexer.l"
+#line 103 "flex_lexer.l"
 TOKEN(ELSE)
 	YY_BREAK
-case 48:
+case 46:
 YY_RULE_SETUP
-#line 108 "flex_lexer.l"
+#line 104 "flex_lexer.l"
 TOKEN(ENCODING)
 	YY_BREAK
-case 49:
+case 47:
 YY_RULE_SETUP
-#line 109 "flex_lexer.l"
+#line 105 "flex_lexer.l"
 TOKEN(END)
 	YY_BREAK
-case 50:
+case 48:
 YY_RULE_SETUP
-#line 110 "flex_lexer.l"
+#line 106 "flex_lexer.l"
 TOKEN(ESCAPE)
 	YY_BREAK
-case 51:
+case 49:
 YY_RULE_SETUP
-#line 111 "flex_lexer.l"
+#line 107 "flex_lexer.l"
 TOKEN(EXCEPT)
 	YY_BREAK
-case 52:
+case 50:
 YY_RULE_SETUP
-#line 112 "flex_lexer.l"
+#line 108 "flex_lexer.l"
 TOKEN(EXECUTE)
 	YY_BREAK
-case 53:
+case 51:
 YY_RULE_SETUP
-#line 113 "flex_lexer.l"
+#line 109 "flex_lexer.l"
 TOKEN(EXISTS)
 	YY_BREAK
-case 54:
+case 52:
 YY_RULE_SETUP
-#line 114 "flex_lexer.l"
+#line 110 "flex_lexer.l"
 TOKEN(EXPLAIN)
 	YY_BREAK
-case 55:
+case 53:
 YY_RULE_SETUP
-#line 115 "flex_lexer.l"
+#line 111 "flex_lexer.l"
 TOKEN(EXTRACT)
 	YY_BREAK
-case 56:
+case 54:
 YY_RULE_SETUP
-#line 116 "flex_lexer.l"
+#line 112 "flex_lexer.l"
 TOKEN(FALSE)
 	YY_BREAK
-case 57:
+case 55:
 YY_RULE_SETUP
-#line 117 "flex_lexer.l"
+#line 113 "flex_lexer.l"
 TOKEN(FILE)
 	YY_BREAK
-case 58:
+case 56:
 YY_RULE_SETUP
-#line 118 "flex_lexer.l"
+#line 114 "flex_lexer.l"
 TOKEN(FLOAT)
 	YY_BREAK
-case 59:
+case 57:
 YY_RULE_SETUP
-#line 119 "flex_lexer.l"
+#line 115 "flex_lexer.l"
 TOKEN(FOLLOWING)
 	YY_BREAK
-case 60:
+case 58:
 YY_RULE_SETUP
-#line 120 "flex_lexer.l"
+#line 116 "flex_lexer.l"
 TOKEN(FOR)
 	YY_BREAK
-case 61:
+case 59:
 YY_RULE_SETUP
-#line 121 "flex_lexer.l"
+#line 117 "flex_lexer.l"
 TOKEN(FOREIGN)
 	YY_BREAK
-case 62:
+case 60:
 YY_RULE_SETUP
-#line 122 "flex_lexer.l"
+#line 118 "flex_lexer.l"
 TOKEN(FORMAT)
 	YY_BREAK
-case 63:
+case 61:
 YY_RULE_SETUP
-#line 123 "flex_lexer.l"
+#line 119 "flex_lexer.l"
 TOKEN(FROM)
 	YY_BREAK
-case 64:
+case 62:
 YY_RULE_SETUP
-#line 124 "flex_lexer.l"
+#line 120 "flex_lexer.l"
 TOKEN(FULL)
 	YY_BREAK
-case 65:
+case 63:
 YY_RULE_SETUP
-#line 125 "flex_lexer.l"
+#line 121 "flex_lexer.l"
 TOKEN(GLOBAL)
 	YY_BREAK
-case 66:
+case 64:
 YY_RULE_SETUP
-#line 126 "flex_lexer.l"
+#line 122 "flex_lexer.l"
 TOKEN(GROUP)
 	YY_BREAK
-case 67:
+case 65:
 YY_RULE_SETUP
-#line 127 "flex_lexer.l"
+#line 123 "flex_lexer.l"
 TOKEN(GROUPS)
 	YY_BREAK
-case 68:
+case 66:
 YY_RULE_SETUP
-#line 128 "flex_lexer.l"
+#line 124 "flex_lexer.l"
 TOKEN(HASH)
 	YY_BREAK
-case 69:
+case 67:
 YY_RULE_SETUP
-#line 129 "flex_lexer.l"
+#line 125 "flex_lexer.l"
 TOKEN(HAVING)
 	YY_BREAK
-case 70:
+case 68:
 YY_RULE_SETUP
-#line 130 "flex_lexer.l"
+#line 126 "flex_lexer.l"
 TOKEN(HINT)
 	YY_BREAK
-case 71:
+case 69:
 YY_RULE_SETUP
-#line 131 "flex_lexer.l"
+#line 127 "flex_lexer.l"
 TOKEN(HOUR)
 	YY_BREAK
-case 72:
+case 70:
 YY_RULE_SETUP
-#line 132 "flex_lexer.l"
+#line 128 "flex_lexer.l"
 TOKEN(HOURS)
 	YY_BREAK
-case 73:
+case 71:
 YY_RULE_SETUP
-#line 133 "flex_lexer.l"
+#line 129 "flex_lexer.l"
 TOKEN(IF)
 	YY_BREAK
-case 74:
+case 72:
 YY_RULE_SETUP
-#line 134 "flex_lexer.l"
+#line 130 "flex_lexer.l"
 TOKEN(ILIKE)
 	YY_BREAK
-case 75:
+case 73:
 YY_RULE_SETUP
-#line 135 "flex_lexer.l"
+#line 131 "flex_lexer.l"
 TOKEN(IMPORT)
 	YY_BREAK
-case 76:
+case 74:
 YY_RULE_SETUP
-#line 136 "flex_lexer.l"
+#line 132 "flex_lexer.l"
 TOKEN(IN)
 	YY_BREAK
-case 77:
+case 75:
 YY_RULE_SETUP
-#line 137 "flex_lexer.l"
+#line 133 "flex_lexer.l"
 TOKEN(INDEX)
 	YY_BREAK
-case 78:
+case 76:
 YY_RULE_SETUP
-#line 138 "flex_lexer.l"
+#line 134 "flex_lexer.l"
 TOKEN(INNER)
 	YY_BREAK
-case 79:
+case 77:
 YY_RULE_SETUP
-#line 139 "flex_lexer.l"
+#line 135 "flex_lexer.l"
 TOKEN(INSERT)
 	YY_BREAK
-case 80:
+case 78:
 YY_RULE_SETUP
-#line 140 "flex_lexer.l"
+#line 136 "flex_lexer.l"
 TOKEN(INT)
 	YY_BREAK
-case 81:
+case 79:
 YY_RULE_SETUP
-#line 141 "flex_lexer.l"
+#line 137 "flex_lexer.l"
 TOKEN(INTEGER)
 	YY_BREAK
-case 82:
+case 80:
 YY_RULE_SETUP
-#line 142 "flex_lexer.l"
+#line 138 "flex_lexer.l"
 TOKEN(INTERSECT)
 	YY_BREAK
-case 83:
+case 81:
 YY_RULE_SETUP
-#line 143 "flex_lexer.l"
+#line 139 "flex_lexer.l"
 TOKEN(INTERVAL)
 	YY_BREAK
-case 84:
+case 82:
 YY_RULE_SETUP
-#line 144 "flex_lexer.l"
+#line 140 "flex_lexer.l"
 TOKEN(INTO)
 	YY_BREAK
-case 85:
+case 83:
 YY_RULE_SETUP
-#line 145 "flex_lexer.l"
+#line 141 "flex_lexer.l"
 TOKEN(IS)
 	YY_BREAK
-case 86:
+case 84:
 YY_RULE_SETUP
-#line 146 "flex_lexer.l"
+#line 142 "flex_lexer.l"
 TOKEN(ISNULL)
 	YY_BREAK
-case 87:
+case 85:
 YY_RULE_SETUP
-#line 147 "flex_lexer.l"
+#line 143 "flex_lexer.l"
 TOKEN(JOIN)
 	YY_BREAK
-case 88:
+case 86:
 YY_RULE_SETUP
-#line 148 "flex_lexer.l"
+#line 144 "flex_lexer.l"
 TOKEN(KEY)
 	YY_BREAK
-case 89:
+case 87:
 YY_RULE_SETUP
-#line 149 "flex_lexer.l"
+#line 145 "flex_lexer.l"
 TOKEN(LEFT)
 	YY_BREAK
-case 90:
+case 88:
 YY_RULE_SETUP
-#line 150 "flex_lexer.l"
+#line 146 "flex_lexer.l"
 TOKEN(LIKE)
 	YY_BREAK
-case 91:
+case 89:
 YY_RULE_SETUP
-#line 151 "flex_lexer.l"
+#line 147 "flex_lexer.l"
 TOKEN(LIMIT)
 	YY_BREAK
-case 92:
+case 90:
 YY_RULE_SETUP
-#line 152 "flex_lexer.l"
+#line 148 "flex_lexer.l"
 TOKEN(LOAD)
 	YY_BREAK
-case 93:
+case 91:
 YY_RULE_SETUP
-#line 153 "flex_lexer.l"
+#line 149 "flex_lexer.l"
 TOKEN(LOCAL)
 	YY_BREAK
-case 94:
+case 92:
 YY_RULE_SETUP
-#line 154 "flex_lexer.l"
+#line 150 "flex_lexer.l"
 TOKEN(LOCKED)
 	YY_BREAK
-case 95:
+case 93:
 YY_RULE_SETUP
-#line 155 "flex_lexer.l"
+#line 151 "flex_lexer.l"
 TOKEN(LONG)
 	YY_BREAK
-case 96:
+case 94:
 YY_RULE_SETUP
-#line 156 "flex_lexer.l"
+#line 152 "flex_lexer.l"
 TOKEN(MERGE)
 	YY_BREAK
-case 97:
+case 95:
 YY_RULE_SETUP
-#line 157 "flex_lexer.l"
+#line 153 "flex_lexer.l"
 TOKEN(MINUS)
 	YY_BREAK
-case 98:
+case 96:
 YY_RULE_SETUP
-#line 158 "flex_lexer.l"
+#line 154 "flex_lexer.l"
 TOKEN(MINUTE)
 	YY_BREAK
-case 99:
+case 97:
 YY_RULE_SETUP
-#line 159 "flex_lexer.l"
+#line 155 "flex_lexer.l"
 TOKEN(MINUTES)
 	YY_BREAK
-case 100:
+case 98:
 YY_RULE_SETUP
-#line 160 "flex_lexer.l"
+#line 156 "flex_lexer.l"
 TOKEN(MONTH)
 	YY_BREAK
-case 101:
+case 99:
 YY_RULE_SETUP
-#line 161 "flex_lexer.l"
+#line 157 "flex_lexer.l"
 TOKEN(MONTHS)
 	YY_BREAK
-case 102:
+case 100:
 YY_RULE_SETUP
-#line 162 "flex_lexer.l"
+#line 158 "flex_lexer.l"
 TOKEN(NATURAL)
 	YY_BREAK
-case 103:
+case 101:
 YY_RULE_SETUP
-#line 163 "flex_lexer.l"
+#line 159 "flex_lexer.l"
 TOKEN(NO)
 	YY_BREAK
-case 104:
+case 102:
 YY_RULE_SETUP
-#line 164 "flex_lexer.l"
+#line 160 "flex_lexer.l"
 TOKEN(NOT)
 	YY_BREAK
-case 105:
+case 103:
 YY_RULE_SETUP
-#line 165 "flex_lexer.l"
+#line 161 "flex_lexer.l"
 TOKEN(NOWAIT)
 	YY_BREAK
-case 106:
+case 104:
 YY_RULE_SETUP
-#line 166 "flex_lexer.l"
+#line 162 "flex_lexer.l"
 TOKEN(NULL)
 	YY_BREAK
-case 107:
+case 105:
 YY_RULE_SETUP
-#line 167 "flex_lexer.l"
+#line 163 "flex_lexer.l"
 TOKEN(NVARCHAR)
 	YY_BREAK
-case 108:
+case 106:
 YY_RULE_SETUP
-#line 168 "flex_lexer.l"
+#line 164 "flex_lexer.l"
 TOKEN(OF)
 	YY_BREAK
-case 109:
+case 107:
 YY_RULE_SETUP
-#line 169 "flex_lexer.l"
+#line 165 "flex_lexer.l"
 TOKEN(OFF)
 	YY_BREAK
-case 110:
+case 108:
 YY_RULE_SETUP
-#line 170 "flex_lexer.l"
+#line 166 "flex_lexer.l"
 TOKEN(OFFSET)
 	YY_BREAK
-case 111:
+case 109:
 YY_RULE_SETUP
-#line 171 "flex_lexer.l"
+#line 167 "flex_lexer.l"
 TOKEN(ON)
 	YY_BREAK
-case 112:
+case 110:
 YY_RULE_SETUP
-#line 172 "flex_lexer.l"
+#line 168 "flex_lexer.l"
 TOKEN(OR)
 	YY_BREAK
-case 113:
+case 111:
 YY_RULE_SETUP
-#line 173 "flex_lexer.l"
+#line 169 "flex_lexer.l"
 TOKEN(ORDER)
 	YY_BREAK
-case 114:
+case 112:
 YY_RULE_SETUP
-#line 174 "flex_lexer.l"
+#line 170 "flex_lexer.l"
 TOKEN(OUTER)
 	YY_BREAK
-case 115:
+case 113:
 YY_RULE_SETUP
-#line 175 "flex_lexer.l"
+#line 171 "flex_lexer.l"
 TOKEN(OVER)
 	YY_BREAK
-case 116:
+case 114:
 YY_RULE_SETUP
-#line 176 "flex_lexer.l"
+#line 172 "flex_lexer.l"
 TOKEN(PARAMETERS)
 	YY_BREAK
-case 117:
+case 115:
 YY_RULE_SETUP
-#line 177 "flex_lexer.l"
+#line 173 "flex_lexer.l"
 TOKEN(PARTITION)
 	YY_BREAK
-case 118:
+case 116:
 YY_RULE_SETUP
-#line 178 "flex_lexer.l"
+#line 174 "flex_lexer.l"
 TOKEN(PLAN)
 	YY_BREAK
-case 119:
+case 117:
 YY_RULE_SETUP
-#line 179 "flex_lexer.l"
+#line 175 "flex_lexer.l"
 TOKEN(PRECEDING)
 	YY_BREAK
-case 120:
+case 118:
 YY_RULE_SETUP
-#line 180 "flex_lexer.l"
+#line 176 "flex_lexer.l"
 TOKEN(PREPARE)
 	YY_BREAK
-case 121:
+case 119:
 YY_RULE_SETUP
-#line 181 "flex_lexer.l"
+#line 177 "flex_lexer.l"
 TOKEN(PRIMARY)
 	YY_BREAK
-case 122:
+case 120:
 YY_RULE_SETUP
-#line 182 "flex_lexer.l"
+#line 178 "flex_lexer.l"
 TOKEN(RANGE)
 	YY_BREAK
-case 123:
+case 121:
 YY_RULE_SETUP
-#line 183 "flex_lexer.l"
+#line 179 "flex_lexer.l"
 TOKEN(REAL)
 	YY_BREAK
-case 124:
+case 122:
 YY_RULE_SETUP
-#line 184 "flex_lexer.l"
+#line 180 "flex_lexer.l"
 TOKEN(REFERENCES)
 	YY_BREAK
-case 125:
+case 123:
 YY_RULE_SETUP
-#line 185 "flex_lexer.l"
+#line 181 "flex_lexer.l"
 TOKEN(RENAME)
 	YY_BREAK
-case 126:
+case 124:
 YY_RULE_SETUP
-#line 186 "flex_lexer.l"
+#line 182 "flex_lexer.l"
 TOKEN(RESTRICT)
 	YY_BREAK
-case 127:
+case 125:
 YY_RULE_SETUP
-#line 187 "flex_lexer.l"
+#line 183 "flex_lexer.l"
 TOKEN(RIGHT)
 	YY_BREAK
-case 128:
+case 126:
 YY_RULE_SETUP
-#line 188 "flex_lexer.l"
+#line 184 "flex_lexer.l"
 TOKEN(ROLLBACK)
 	YY_BREAK
-case 129:
+case 127:
 YY_RULE_SETUP
-#line 189 "flex_lexer.l"
+#line 185 "flex_lexer.l"
 TOKEN(ROWS)
 	YY_BREAK
-case 130:
+case 128:
 YY_RULE_SETUP
-#line 190 "flex_lexer.l"
+#line 186 "flex_lexer.l"
 TOKEN(SCHEMA)
 	YY_BREAK
-case 131:
+case 129:
 YY_RULE_SETUP
-#line 191 "flex_lexer.l"
+#line 187 "flex_lexer.l"
 TOKEN(SCHEMAS)
 	YY_BREAK
-case 132:
+case 130:
 YY_RULE_SETUP
-#line 192 "flex_lexer.l"
+#line 188 "flex_lexer.l"
 TOKEN(SECOND)
 	YY_BREAK
-case 133:
+case 131:
 YY_RULE_SETUP
-#line 193 "flex_lexer.l"
+#line 189 "flex_lexer.l"
 TOKEN(SECONDS)
 	YY_BREAK
-case 134:
+case 132:
 YY_RULE_SETUP
-#line 194 "flex_lexer.l"
+#line 190 "flex_lexer.l"
 TOKEN(SELECT)
 	YY_BREAK
-case 135:
+case 133:
 YY_RULE_SETUP
-#line 195 "flex_lexer.l"
+#line 191 "flex_lexer.l"
 TOKEN(SET)
 	YY_BREAK
-case 136:
+case 134:
 YY_RULE_SETUP
-#line 196 "flex_lexer.l"
+#line 192 "flex_lexer.l"
 TOKEN(SHARE)
 	YY_BREAK
-case 137:
+case 135:
 YY_RULE_SETUP
-#line 197 "flex_lexer.l"
+#line 193 "flex_lexer.l"
 TOKEN(SHOW)
 	YY_BREAK
-case 138:
+case 136:
 YY_RULE_SETUP
-#line 198 "flex_lexer.l"
+#line 194 "flex_lexer.l"
 TOKEN(SKIP)
 	YY_BREAK
-case 139:
+case 137:
 YY_RULE_SETUP
-#line 199 "flex_lexer.l"
+#line 195 "flex_lexer.l"
 TOKEN(SMALLINT)
 	YY_BREAK
-case 140:
+case 138:
 YY_RULE_SETUP
-#line 200 "flex_lexer.l"
+#line 196 "flex_lexer.l"
 TOKEN(SORTED)
 	YY_BREAK
-case 141:
+case 139:
 YY_RULE_SETUP
-#line 201 "flex_lexer.l"
+#line 197 "flex_lexer.l"
 TOKEN(SPATIAL)
 	YY_BREAK
-case 142:
+case 140:
 YY_RULE_SETUP
-#line 202 "flex_lexer.l"
+#line 198 "flex_lexer.l"
 TOKEN(TABLE)
 	YY_BREAK
-case 143:
+case 141:
 YY_RULE_SETUP
-#line 203 "flex_lexer.l"
+#line 199 "flex_lexer.l"
 TOKEN(TABLES)
 	YY_BREAK
-case 144:
+case 142:
 YY_RULE_SETUP
-#line 204 "flex_lexer.l"
+#line 200 "flex_lexer.l"
 TOKEN(TEMPORARY)
 	YY_BREAK
-case 145:
+case 143:
 YY_RULE_SETUP
-#line 205 "flex_lexer.l"
+#line 201 "flex_lexer.l"
 TOKEN(TEXT)
 	YY_BREAK
-case 146:
+case 144:
 YY_RULE_SETUP
-#line 206 "flex_lexer.l"
+#line 202 "flex_lexer.l"
 TOKEN(THEN)
 	YY_BREAK
-case 147:
+case 145:
 YY_RULE_SETUP
-#line 207 "flex_lexer.l"
+#line 203 "flex_lexer.l"
 TOKEN(TIME)
 	YY_BREAK
-case 148:
+case 146:
 YY_RULE_SETUP
-#line 208 "flex_lexer.l"
+#line 204 "flex_lexer.l"
 TOKEN(TIMESTAMP)
 	YY_BREAK
-case 149:
+case 147:
 YY_RULE_SETUP
-#line 209 "flex_lexer.l"
+#line 205 "flex_lexer.l"
 TOKEN(TO)
 	YY_BREAK
-case 150:
+case 148:
 YY_RULE_SETUP
-#line 210 "flex_lexer.l"
+#line 206 "flex_lexer.l"
 TOKEN(TOP)
 	YY_BREAK
-case 151:
+case 149:
 YY_RULE_SETUP
-#line 211 "flex_lexer.l"
+#line 207 "flex_lexer.l"
 TOKEN(TRANSACTION)
 	YY_BREAK
-case 152:
+case 150:
 YY_RULE_SETUP
-#line 212 "flex_lexer.l"
+#line 208 "flex_lexer.l"
 TOKEN(TRUE)
 	YY_BREAK
-case 153:
+case 151:
 YY_RULE_SETUP
-#line 213 "flex_lexer.l"
+#line 209 "flex_lexer.l"
 TOKEN(TRUNCATE)
 	YY_BREAK
-case 154:
+case 152:
 YY_RULE_SETUP
-#line 214 "flex_lexer.l"
+#line 210 "flex_lexer.l"
 TOKEN(UNBOUNDED)
 	YY_BREAK
-case 155:
+case 153:
 YY_RULE_SETUP
-#line 215 "flex_lexer.l"
+#line 211 "flex_lexer.l"
 TOKEN(UNION)
 	YY_BREAK
-case 156:
+case 154:
 YY_RULE_SETUP
-#line 216 "flex_lexer.l"
+#line 212 "flex_lexer.l"
 TOKEN(UNIQUE)
 	YY_BREAK
-case 157:
+case 155:
 YY_RULE_SETUP
-#line 217 "flex_lexer.l"
+#line 213 "flex_lexer.l"
 TOKEN(UNLOAD)
 	YY_BREAK
-case 158:
+case 156:
 YY_RULE_SETUP
-#line 218 "flex_lexer.l"
+#line 214 "flex_lexer.l"
 TOKEN(UPDATE)
 	YY_BREAK
-case 159:
+case 157:
 YY_RULE_SETUP
-#line 219 "flex_lexer.l"
+#line 215 "flex_lexer.l"
 TOKEN(USING)
 	YY_BREAK
-case 160:
+case 158:
 YY_RULE_SETUP
-#line 220 "flex_lexer.l"
+#line 216 "flex_lexer.l"
 TOKEN(VALUES)
 	YY_BREAK
-case 161:
+case 159:
 YY_RULE_SETUP
-#line 221 "flex_lexer.l"
+#line 217 "flex_lexer.l"
 TOKEN(VARCHAR)
 	YY_BREAK
-case 162:
+case 160:
 YY_RULE_SETUP
-#line 222 "flex_lexer.l"
+#line 218 "flex_lexer.l"
 TOKEN(VIEW)
 	YY_BREAK
-case 163:
+case 161:
 YY_RULE_SETUP
-#line 223 "flex_lexer.l"
+#line 219 "flex_lexer.l"
 TOKEN(VIRTUAL)
 	YY_BREAK
-case 164:
+case 162:
 YY_RULE_SETUP
-#line 224 "flex_lexer.l"
+#line 220 "flex_lexer.l"
 TOKEN(WHEN)
 	YY_BREAK
-case 165:
+case 163:
 YY_RULE_SETUP
-#line 225 "flex_lexer.l"
+#line 221 "flex_lexer.l"
 TOKEN(WHERE)
 	YY_BREAK
-case 166:
+case 164:
 YY_RULE_SETUP
-#line 226 "flex_lexer.l"
+#line 222 "flex_lexer.l"
 TOKEN(WITH)
 	YY_BREAK
-case 167:
+case 165:
 YY_RULE_SETUP
-#line 227 "flex_lexer.l"
+#line 223 "flex_lexer.l"
 TOKEN(YEAR)
 	YY_BREAK
-case 168:
+case 166:
 YY_RULE_SETUP
-#line 228 "flex_lexer.l"
+#line 224 "flex_lexer.l"
 TOKEN(YEARS)
 	YY_BREAK
-case 169:
-/* rule 169 can match eol */
+case 167:
+/* rule 167 can match eol */
 YY_RULE_SETUP
-#line 230 "flex_lexer.l"
+#line 226 "flex_lexer.l"
 TOKEN(CURRENT_ROW)
 	YY_BREAK
-case 170:
-/* rule 170 can match eol */
+case 168:
+/* rule 168 can match eol */
 YY_RULE_SETUP
-#line 231 "flex_lexer.l"
+#line 227 "flex_lexer.l"
 TOKEN(CHARACTER_VARYING)
 	YY_BREAK
 /* Allow =/== see https://sqlite.org/lang_expr.html#collateop */
-case 171:
+case 169:
 YY_RULE_SETUP
-#line 234 "flex_lexer.l"
+#line 230 "flex_lexer.l"
 TOKEN(EQUALS)
 	YY_BREAK
-case 172:
+case 170:
 YY_RULE_SETUP
-#line 235 "flex_lexer.l"
+#line 231 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
-case 173:
+case 171:
 YY_RULE_SETUP
-#line 236 "flex_lexer.l"
+#line 232 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
-case 174:
+case 172:
 YY_RULE_SETUP
-#line 237 "flex_lexer.l"
+#line 233 "flex_lexer.l"
 TOKEN(LESSEQ)
 	YY_BREAK
-case 175:
+case 173:
 YY_RULE_SETUP
-#line 238 "flex_lexer.l"
+#line 234 "flex_lexer.l"
 TOKEN(GREATEREQ)
 	YY_BREAK
-case 176:
+case 174:
 YY_RULE_SETUP
-#line 239 "flex_lexer.l"
+#line 235 "flex_lexer.l"
 TOKEN(CONCAT)
 	YY_BREAK
-case 177:
+case 175:
 YY_RULE_SETUP
-#line 241 "flex_lexer.l"
+#line 237 "flex_lexer.l"
 { return yytext[0]; }
 	YY_BREAK
-case 178:
-#line 244 "flex_lexer.l"
-case 179:
+case 176:
+#line 240 "flex_lexer.l"
+case 177:
 YY_RULE_SETUP
-#line 244 "flex_lexer.l"
+#line 240 "flex_lexer.l"
 {
   yylval->fval = atof(yytext);
   return SQL_FLOATVAL;
@@ -4147,82 +2491,86 @@ YY_RULE_SETUP
    * positive equivalent. We thus match for LLONG_MIN specifically. This is not an issue for floats, where
    *   numeric_limits<double>::lowest() == -numeric_limits<double>::max();
    */
-case 180:
+case 178:
 YY_RULE_SETUP
-#line 254 "flex_lexer.l"
+#line 250 "flex_lexer.l"
 {
   yylval->ival = LLONG_MIN;
   return SQL_INTVAL;
 }
 	YY_BREAK
-case 181:
+case 179:
 YY_RULE_SETUP
-#line 259 "flex_lexer.l"
+#line 255 "flex_lexer.l"
 {
   errno = 0;
-  yylval->ival = strtoll(yytext, nullptr, 0);
+  yylval->ival = strtoll(yytext, nullptr, 10);
   if (errno) {
-    return fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
-    return 0;
+    fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
+    return SQL_INVALID;
   }
   return SQL_INTVAL;
 }
 	YY_BREAK
-case 182:
+case 180:
 YY_RULE_SETUP
-#line 269 "flex_lexer.l"
+#line 265 "flex_lexer.l"
 {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
   return SQL_IDENTIFIER;
 }
 	YY_BREAK
-case 183:
+case 181:
 YY_RULE_SETUP
-#line 275 "flex_lexer.l"
+#line 271 "flex_lexer.l"
 {
   yylval->sval = strdup(yytext);
   return SQL_IDENTIFIER;
 }
 	YY_BREAK
-case 184:
+case 182:
 YY_RULE_SETUP
-#line 280 "flex_lexer.l"
+#line 276 "flex_lexer.l"
 { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 	YY_BREAK
-case 185:
+case 183:
 YY_RULE_SETUP
-#line 281 "flex_lexer.l"
+#line 277 "flex_lexer.l"
 { strbuf << '\''; }
 	YY_BREAK
-case 186:
-/* rule 186 can match eol */
+case 184:
+/* rule 184 can match eol */
 YY_RULE_SETUP
-#line 282 "flex_lexer.l"
+#line 278 "flex_lexer.l"
 { strbuf << yytext; }
 	YY_BREAK
-case 187:
+case 185:
 YY_RULE_SETUP
-#line 283 "flex_lexer.l"
+#line 279 "flex_lexer.l"
 { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
 	YY_BREAK
+case 186:
+YY_RULE_SETUP
+#line 280 "flex_lexer.l"
+{ BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Null byte in string\n"); return SQL_INVALID; }
+	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
-#line 284 "flex_lexer.l"
-{ fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return 0; }
+#line 281 "flex_lexer.l"
+{ BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 	YY_BREAK
-case 188:
+case 187:
 YY_RULE_SETUP
-#line 286 "flex_lexer.l"
-{ fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return 0; }
+#line 283 "flex_lexer.l"
+{ fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
 	YY_BREAK
-case 189:
+case 188:
 YY_RULE_SETUP
-#line 288 "flex_lexer.l"
+#line 285 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 4224 "flex_lexer.cpp"
+#line 2573 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
-case YY_STATE_EOF(COMMENT):
 	yyterminate();
 
 	case YY_END_OF_BUFFER:
@@ -4239,7 +2587,7 @@ case YY_STATE_EOF(COMMENT):
 			/* We're scanning a new file or input source.  It's
 			 * possible that this happened because the user
 			 * just pointed yyin at a new source and called
-			 * hsql_lex().  If so, then we have to assure
+			 * yylex().  If so, then we have to assure
 			 * consistency between YY_CURRENT_BUFFER and our
 			 * globals.  Here is the right place to do so, because
 			 * this is the first action (other than possibly a
@@ -4300,7 +2648,7 @@ case YY_STATE_EOF(COMMENT):
 				{
 				yyg->yy_did_buffer_switch_on_eof = 0;
 
-				if ( hsql_wrap(yyscanner ) )
+				if ( yywrap( yyscanner ) )
 					{
 					/* Note: because we've taken care in
 					 * yy_get_next_buffer() to have set up
@@ -4354,7 +2702,7 @@ case YY_STATE_EOF(COMMENT):
 	} /* end of action switch */
 		} /* end of scanning one token */
 	} /* end of user's declarations */
-} /* end of hsql_lex */
+} /* end of yylex */
 
 /* yy_get_next_buffer - try to read in a new buffer
  *
@@ -4368,7 +2716,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	char *dest = YY_CURRENT_BUFFER_LVALUE->yy_ch_buf;
 	char *source = yyg->yytext_ptr;
-	yy_size_t number_to_move, i;
+	int number_to_move, i;
 	int ret_val;
 
 	if ( yyg->yy_c_buf_p > &YY_CURRENT_BUFFER_LVALUE->yy_ch_buf[yyg->yy_n_chars + 1] )
@@ -4397,7 +2745,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	/* Try to read more data. */
 
 	/* First move last chars to start of buffer. */
-	number_to_move = (yy_size_t) (yyg->yy_c_buf_p - yyg->yytext_ptr) - 1;
+	number_to_move = (int) (yyg->yy_c_buf_p - yyg->yytext_ptr - 1);
 
 	for ( i = 0; i < number_to_move; ++i )
 		*(dest++) = *(source++);
@@ -4433,7 +2781,8 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 				b->yy_ch_buf = (char *)
 					/* Include room in for 2 EOB chars. */
-					hsql_realloc((void *) b->yy_ch_buf,(yy_size_t) (b->yy_buf_size + 2) ,yyscanner );
+					yyrealloc( (void *) b->yy_ch_buf,
+							 (yy_size_t) (b->yy_buf_size + 2) , yyscanner );
 				}
 			else
 				/* Can't grow it, we don't own it. */
@@ -4465,7 +2814,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		if ( number_to_move == YY_MORE_ADJ )
 			{
 			ret_val = EOB_ACT_END_OF_FILE;
-			hsql_restart(yyin  ,yyscanner);
+			yyrestart( yyin  , yyscanner);
 			}
 
 		else
@@ -4479,12 +2828,15 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	else
 		ret_val = EOB_ACT_CONTINUE_SCAN;
 
-	if ((int) (yyg->yy_n_chars + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
+	if ((yyg->yy_n_chars + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
 		/* Extend the array by 50%, plus the number we really need. */
 		int new_size = yyg->yy_n_chars + number_to_move + (yyg->yy_n_chars >> 1);
-		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) hsql_realloc((void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf,(yy_size_t) new_size ,yyscanner );
+		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) yyrealloc(
+			(void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf, (yy_size_t) new_size , yyscanner );
 		if ( ! YY_CURRENT_BUFFER_LVALUE->yy_ch_buf )
 			YY_FATAL_ERROR( "out of dynamic memory in yy_get_next_buffer()" );
+		/* "- 2" to take care of EOB's */
+		YY_CURRENT_BUFFER_LVALUE->yy_buf_size = (int) (new_size - 2);
 	}
 
 	yyg->yy_n_chars += number_to_move;
@@ -4508,7 +2860,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	for ( yy_cp = yyg->yytext_ptr + YY_MORE_ADJ; yy_cp < yyg->yy_c_buf_p; ++yy_cp )
 		{
-		YY_CHAR yy_c = (*yy_cp ? yy_ec[YY_SC_TO_UI(*yy_cp)] : 1);
+		YY_CHAR yy_c = (*yy_cp ? yy_ec[YY_SC_TO_UI(*yy_cp)] : 77);
 		if ( yy_accept[yy_current_state] )
 			{
 			yyg->yy_last_accepting_state = yy_current_state;
@@ -4517,10 +2869,10 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 1368 )
-				yy_c = yy_meta[(unsigned int) yy_c];
+			if ( yy_current_state >= 690 )
+				yy_c = yy_meta[yy_c];
 			}
-		yy_current_state = yy_nxt[yy_base[yy_current_state] + (flex_int16_t) yy_c];
+		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 		}
 
 	return yy_current_state;
@@ -4537,7 +2889,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner; /* This var may be unused depending upon options. */
 	char *yy_cp = yyg->yy_c_buf_p;
 
-	YY_CHAR yy_c = 1;
+	YY_CHAR yy_c = 77;
 	if ( yy_accept[yy_current_state] )
 		{
 		yyg->yy_last_accepting_state = yy_current_state;
@@ -4546,11 +2898,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 1368 )
-			yy_c = yy_meta[(unsigned int) yy_c];
+		if ( yy_current_state >= 690 )
+			yy_c = yy_meta[yy_c];
 		}
-	yy_current_state = yy_nxt[yy_base[yy_current_state] + (flex_int16_t) yy_c];
-	yy_is_jam = (yy_current_state == 1367);
+	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
+	yy_is_jam = (yy_current_state == 689);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -4585,7 +2937,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 		else
 			{ /* need more input */
-			int offset = yyg->yy_c_buf_p - yyg->yytext_ptr;
+			int offset = (int) (yyg->yy_c_buf_p - yyg->yytext_ptr);
 			++yyg->yy_c_buf_p;
 
 			switch ( yy_get_next_buffer( yyscanner ) )
@@ -4602,13 +2954,13 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 					 */
 
 					/* Reset buffer status. */
-					hsql_restart(yyin ,yyscanner);
+					yyrestart( yyin , yyscanner);
 
 					/*FALLTHROUGH*/
 
 				case EOB_ACT_END_OF_FILE:
 					{
-					if ( hsql_wrap(yyscanner ) )
+					if ( yywrap( yyscanner ) )
 						return 0;
 
 					if ( ! yyg->yy_did_buffer_switch_on_eof )
@@ -4640,34 +2992,34 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  * @note This function does not reset the start condition to @c INITIAL .
  */
-    void hsql_restart  (FILE * input_file , yyscan_t yyscanner)
+    void yyrestart  (FILE * input_file , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
 	if ( ! YY_CURRENT_BUFFER ){
-        hsql_ensure_buffer_stack (yyscanner);
+        yyensure_buffer_stack (yyscanner);
 		YY_CURRENT_BUFFER_LVALUE =
-            hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner);
+            yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner);
 	}
 
-	hsql__init_buffer(YY_CURRENT_BUFFER,input_file ,yyscanner);
-	hsql__load_buffer_state(yyscanner );
+	yy_init_buffer( YY_CURRENT_BUFFER, input_file , yyscanner);
+	yy_load_buffer_state( yyscanner );
 }
 
 /** Switch to a different input buffer.
  * @param new_buffer The new input buffer.
  * @param yyscanner The scanner object.
  */
-    void hsql__switch_to_buffer  (YY_BUFFER_STATE  new_buffer , yyscan_t yyscanner)
+    void yy_switch_to_buffer  (YY_BUFFER_STATE  new_buffer , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
 	/* TODO. We should be able to replace this entire function body
 	 * with
-	 *		hsql_pop_buffer_state();
-	 *		hsql_push_buffer_state(new_buffer);
+	 *		yypop_buffer_state();
+	 *		yypush_buffer_state(new_buffer);
      */
-	hsql_ensure_buffer_stack (yyscanner);
+	yyensure_buffer_stack (yyscanner);
 	if ( YY_CURRENT_BUFFER == new_buffer )
 		return;
 
@@ -4680,17 +3032,17 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		}
 
 	YY_CURRENT_BUFFER_LVALUE = new_buffer;
-	hsql__load_buffer_state(yyscanner );
+	yy_load_buffer_state( yyscanner );
 
 	/* We don't actually know whether we did this switch during
-	 * EOF (hsql_wrap()) processing, but the only time this flag
-	 * is looked at is after hsql_wrap() is called, so it's safe
+	 * EOF (yywrap()) processing, but the only time this flag
+	 * is looked at is after yywrap() is called, so it's safe
 	 * to go ahead and always set it.
 	 */
 	yyg->yy_did_buffer_switch_on_eof = 1;
 }
 
-static void hsql__load_buffer_state  (yyscan_t yyscanner)
+static void yy_load_buffer_state  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	yyg->yy_n_chars = YY_CURRENT_BUFFER_LVALUE->yy_n_chars;
@@ -4705,35 +3057,35 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  * @return the allocated buffer state.
  */
-    YY_BUFFER_STATE hsql__create_buffer  (FILE * file, int  size , yyscan_t yyscanner)
+    YY_BUFFER_STATE yy_create_buffer  (FILE * file, int  size , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
     
-	b = (YY_BUFFER_STATE) hsql_alloc(sizeof( struct yy_buffer_state ) ,yyscanner );
+	b = (YY_BUFFER_STATE) yyalloc( sizeof( struct yy_buffer_state ) , yyscanner );
 	if ( ! b )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__create_buffer()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_create_buffer()" );
 
 	b->yy_buf_size = size;
 
 	/* yy_ch_buf has to be 2 characters longer than the size given because
 	 * we need to put in 2 end-of-buffer characters.
 	 */
-	b->yy_ch_buf = (char *) hsql_alloc((yy_size_t) (b->yy_buf_size + 2) ,yyscanner );
+	b->yy_ch_buf = (char *) yyalloc( (yy_size_t) (b->yy_buf_size + 2) , yyscanner );
 	if ( ! b->yy_ch_buf )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__create_buffer()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_create_buffer()" );
 
 	b->yy_is_our_buffer = 1;
 
-	hsql__init_buffer(b,file ,yyscanner);
+	yy_init_buffer( b, file , yyscanner);
 
 	return b;
 }
 
 /** Destroy the buffer.
- * @param b a buffer created with hsql__create_buffer()
+ * @param b a buffer created with yy_create_buffer()
  * @param yyscanner The scanner object.
  */
-    void hsql__delete_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
+    void yy_delete_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
@@ -4744,28 +3096,28 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
 		YY_CURRENT_BUFFER_LVALUE = (YY_BUFFER_STATE) 0;
 
 	if ( b->yy_is_our_buffer )
-		hsql_free((void *) b->yy_ch_buf ,yyscanner );
+		yyfree( (void *) b->yy_ch_buf , yyscanner );
 
-	hsql_free((void *) b ,yyscanner );
+	yyfree( (void *) b , yyscanner );
 }
 
 /* Initializes or reinitializes a buffer.
  * This function is sometimes called more than once on the same buffer,
- * such as during a hsql_restart() or at EOF.
+ * such as during a yyrestart() or at EOF.
  */
-    static void hsql__init_buffer  (YY_BUFFER_STATE  b, FILE * file , yyscan_t yyscanner)
+    static void yy_init_buffer  (YY_BUFFER_STATE  b, FILE * file , yyscan_t yyscanner)
 
 {
 	int oerrno = errno;
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
-	hsql__flush_buffer(b ,yyscanner);
+	yy_flush_buffer( b , yyscanner);
 
 	b->yy_input_file = file;
 	b->yy_fill_buffer = 1;
 
-    /* If b is the current buffer, then hsql__init_buffer was _probably_
-     * called from hsql_restart() or through yy_get_next_buffer.
+    /* If b is the current buffer, then yy_init_buffer was _probably_
+     * called from yyrestart() or through yy_get_next_buffer.
      * In that case, we don't want to reset the lineno or column.
      */
     if (b != YY_CURRENT_BUFFER){
@@ -4782,7 +3134,7 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
  * @param b the buffer state to be flushed, usually @c YY_CURRENT_BUFFER.
  * @param yyscanner The scanner object.
  */
-    void hsql__flush_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
+    void yy_flush_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	if ( ! b )
@@ -4803,7 +3155,7 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
 	b->yy_buffer_status = YY_BUFFER_NEW;
 
 	if ( b == YY_CURRENT_BUFFER )
-		hsql__load_buffer_state(yyscanner );
+		yy_load_buffer_state( yyscanner );
 }
 
 /** Pushes the new state onto the stack. The new state becomes
@@ -4812,15 +3164,15 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
  *  @param new_buffer The new state.
  *  @param yyscanner The scanner object.
  */
-void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
+void yypush_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	if (new_buffer == NULL)
 		return;
 
-	hsql_ensure_buffer_stack(yyscanner);
+	yyensure_buffer_stack(yyscanner);
 
-	/* This block is copied from hsql__switch_to_buffer. */
+	/* This block is copied from yy_switch_to_buffer. */
 	if ( YY_CURRENT_BUFFER )
 		{
 		/* Flush out information for old buffer. */
@@ -4834,8 +3186,8 @@ void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
 		yyg->yy_buffer_stack_top++;
 	YY_CURRENT_BUFFER_LVALUE = new_buffer;
 
-	/* copied from hsql__switch_to_buffer. */
-	hsql__load_buffer_state(yyscanner );
+	/* copied from yy_switch_to_buffer. */
+	yy_load_buffer_state( yyscanner );
 	yyg->yy_did_buffer_switch_on_eof = 1;
 }
 
@@ -4843,19 +3195,19 @@ void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
  *  The next element becomes the new top.
  *  @param yyscanner The scanner object.
  */
-void hsql_pop_buffer_state (yyscan_t yyscanner)
+void yypop_buffer_state (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	if (!YY_CURRENT_BUFFER)
 		return;
 
-	hsql__delete_buffer(YY_CURRENT_BUFFER ,yyscanner);
+	yy_delete_buffer(YY_CURRENT_BUFFER , yyscanner);
 	YY_CURRENT_BUFFER_LVALUE = NULL;
 	if (yyg->yy_buffer_stack_top > 0)
 		--yyg->yy_buffer_stack_top;
 
 	if (YY_CURRENT_BUFFER) {
-		hsql__load_buffer_state(yyscanner );
+		yy_load_buffer_state( yyscanner );
 		yyg->yy_did_buffer_switch_on_eof = 1;
 	}
 }
@@ -4863,9 +3215,9 @@ void hsql_pop_buffer_state (yyscan_t yyscanner)
 /* Allocates the stack if it does not exist.
  *  Guarantees space for at least one push.
  */
-static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
+static void yyensure_buffer_stack (yyscan_t yyscanner)
 {
-	int num_to_alloc;
+	yy_size_t num_to_alloc;
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
 	if (!yyg->yy_buffer_stack) {
@@ -4875,14 +3227,14 @@ static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
 		 * immediate realloc on the next call.
          */
       num_to_alloc = 1; /* After all that talk, this was set to 1 anyways... */
-		yyg->yy_buffer_stack = (struct yy_buffer_state**)hsql_alloc
+		yyg->yy_buffer_stack = (struct yy_buffer_state**)yyalloc
 								(num_to_alloc * sizeof(struct yy_buffer_state*)
 								, yyscanner);
 		if ( ! yyg->yy_buffer_stack )
-			YY_FATAL_ERROR( "out of dynamic memory in hsql_ensure_buffer_stack()" );
-								  
+			YY_FATAL_ERROR( "out of dynamic memory in yyensure_buffer_stack()" );
+
 		memset(yyg->yy_buffer_stack, 0, num_to_alloc * sizeof(struct yy_buffer_state*));
-				
+
 		yyg->yy_buffer_stack_max = num_to_alloc;
 		yyg->yy_buffer_stack_top = 0;
 		return;
@@ -4894,12 +3246,12 @@ static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
 		yy_size_t grow_size = 8 /* arbitrary grow size */;
 
 		num_to_alloc = yyg->yy_buffer_stack_max + grow_size;
-		yyg->yy_buffer_stack = (struct yy_buffer_state**)hsql_realloc
+		yyg->yy_buffer_stack = (struct yy_buffer_state**)yyrealloc
 								(yyg->yy_buffer_stack,
 								num_to_alloc * sizeof(struct yy_buffer_state*)
 								, yyscanner);
 		if ( ! yyg->yy_buffer_stack )
-			YY_FATAL_ERROR( "out of dynamic memory in hsql_ensure_buffer_stack()" );
+			YY_FATAL_ERROR( "out of dynamic memory in yyensure_buffer_stack()" );
 
 		/* zero only the new slots.*/
 		memset(yyg->yy_buffer_stack + yyg->yy_buffer_stack_max, 0, grow_size * sizeof(struct yy_buffer_state*));
@@ -4911,9 +3263,9 @@ static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
  * @param base the character buffer
  * @param size the size in bytes of the character buffer
  * @param yyscanner The scanner object.
- * @return the newly allocated buffer state object. 
+ * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE hsql__scan_buffer  (char * base, yy_size_t  size , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_buffer  (char * base, yy_size_t  size , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
     
@@ -4923,9 +3275,9 @@ YY_BUFFER_STATE hsql__scan_buffer  (char * base, yy_size_t  size , yyscan_t yysc
 		/* They forgot to leave room for the EOB's. */
 		return NULL;
 
-	b = (YY_BUFFER_STATE) hsql_alloc(sizeof( struct yy_buffer_state ) ,yyscanner );
+	b = (YY_BUFFER_STATE) yyalloc( sizeof( struct yy_buffer_state ) , yyscanner );
 	if ( ! b )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__scan_buffer()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_scan_buffer()" );
 
 	b->yy_buf_size = (int) (size - 2);	/* "- 2" to take care of EOB's */
 	b->yy_buf_pos = b->yy_ch_buf = base;
@@ -4937,33 +3289,33 @@ YY_BUFFER_STATE hsql__scan_buffer  (char * base, yy_size_t  size , yyscan_t yysc
 	b->yy_fill_buffer = 0;
 	b->yy_buffer_status = YY_BUFFER_NEW;
 
-	hsql__switch_to_buffer(b ,yyscanner );
+	yy_switch_to_buffer( b , yyscanner );
 
 	return b;
 }
 
-/** Setup the input buffer state to scan a string. The next call to hsql_lex() will
+/** Setup the input buffer state to scan a string. The next call to yylex() will
  * scan from a @e copy of @a str.
  * @param yystr a NUL-terminated string to scan
  * @param yyscanner The scanner object.
  * @return the newly allocated buffer state object.
  * @note If you want to scan bytes that may contain NUL values, then use
- *       hsql__scan_bytes() instead.
+ *       yy_scan_bytes() instead.
  */
-YY_BUFFER_STATE hsql__scan_string (yyconst char * yystr , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_string (const char * yystr , yyscan_t yyscanner)
 {
     
-	return hsql__scan_bytes(yystr,(int) strlen(yystr) ,yyscanner);
+	return yy_scan_bytes( yystr, (int) strlen(yystr) , yyscanner);
 }
 
-/** Setup the input buffer state to scan the given bytes. The next call to hsql_lex() will
+/** Setup the input buffer state to scan the given bytes. The next call to yylex() will
  * scan from a @e copy of @a bytes.
  * @param yybytes the byte buffer to scan
  * @param _yybytes_len the number of bytes in the buffer pointed to by @a bytes.
  * @param yyscanner The scanner object.
  * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE hsql__scan_bytes  (yyconst char * yybytes, int  _yybytes_len , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, int  _yybytes_len , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
 	char *buf;
@@ -4972,18 +3324,18 @@ YY_BUFFER_STATE hsql__scan_bytes  (yyconst char * yybytes, int  _yybytes_len , y
     
 	/* Get memory for full buffer, including space for trailing EOB's. */
 	n = (yy_size_t) (_yybytes_len + 2);
-	buf = (char *) hsql_alloc(n ,yyscanner );
+	buf = (char *) yyalloc( n , yyscanner );
 	if ( ! buf )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__scan_bytes()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_scan_bytes()" );
 
 	for ( i = 0; i < _yybytes_len; ++i )
 		buf[i] = yybytes[i];
 
 	buf[_yybytes_len] = buf[_yybytes_len+1] = YY_END_OF_BUFFER_CHAR;
 
-	b = hsql__scan_buffer(buf,n ,yyscanner);
+	b = yy_scan_buffer( buf, n , yyscanner);
 	if ( ! b )
-		YY_FATAL_ERROR( "bad buffer in hsql__scan_bytes()" );
+		YY_FATAL_ERROR( "bad buffer in yy_scan_bytes()" );
 
 	/* It's okay to grow etc. this buffer, and we should throw it
 	 * away when we're done.
@@ -4997,11 +3349,11 @@ YY_BUFFER_STATE hsql__scan_bytes  (yyconst char * yybytes, int  _yybytes_len , y
 #define YY_EXIT_FAILURE 2
 #endif
 
-static void yynoreturn yy_fatal_error (yyconst char* msg , yyscan_t yyscanner)
+static void yynoreturn yy_fatal_error (const char* msg , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
-	(void) fprintf( stderr, "%s\n", msg );
+	fprintf( stderr, "%s\n", msg );
 	exit( YY_EXIT_FAILURE );
 }
 
@@ -5012,7 +3364,7 @@ static void yynoreturn yy_fatal_error (yyconst char* msg , yyscan_t yyscanner)
 	do \
 		{ \
 		/* Undo effects of setting up yytext. */ \
-        yy_size_t yyless_macro_arg = (n); \
+        int yyless_macro_arg = (n); \
         YY_LESS_LINENO(yyless_macro_arg);\
 		yytext[yyleng] = yyg->yy_hold_char; \
 		yyg->yy_c_buf_p = yytext + yyless_macro_arg; \
@@ -5027,7 +3379,7 @@ static void yynoreturn yy_fatal_error (yyconst char* msg , yyscan_t yyscanner)
 /** Get the user-defined data for this scanner.
  * @param yyscanner The scanner object.
  */
-YY_EXTRA_TYPE hsql_get_extra  (yyscan_t yyscanner)
+YY_EXTRA_TYPE yyget_extra  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyextra;
@@ -5036,10 +3388,10 @@ YY_EXTRA_TYPE hsql_get_extra  (yyscan_t yyscanner)
 /** Get the current line number.
  * @param yyscanner The scanner object.
  */
-int hsql_get_lineno  (yyscan_t yyscanner)
+int yyget_lineno  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
-    
+
         if (! YY_CURRENT_BUFFER)
             return 0;
     
@@ -5049,10 +3401,10 @@ int hsql_get_lineno  (yyscan_t yyscanner)
 /** Get the current column number.
  * @param yyscanner The scanner object.
  */
-int hsql_get_column  (yyscan_t yyscanner)
+int yyget_column  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
-    
+
         if (! YY_CURRENT_BUFFER)
             return 0;
     
@@ -5062,7 +3414,7 @@ int hsql_get_column  (yyscan_t yyscanner)
 /** Get the input stream.
  * @param yyscanner The scanner object.
  */
-FILE *hsql_get_in  (yyscan_t yyscanner)
+FILE *yyget_in  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyin;
@@ -5071,7 +3423,7 @@ FILE *hsql_get_in  (yyscan_t yyscanner)
 /** Get the output stream.
  * @param yyscanner The scanner object.
  */
-FILE *hsql_get_out  (yyscan_t yyscanner)
+FILE *yyget_out  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyout;
@@ -5080,7 +3432,7 @@ FILE *hsql_get_out  (yyscan_t yyscanner)
 /** Get the length of the current token.
  * @param yyscanner The scanner object.
  */
-int hsql_get_leng  (yyscan_t yyscanner)
+int yyget_leng  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyleng;
@@ -5090,7 +3442,7 @@ int hsql_get_leng  (yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  */
 
-char *hsql_get_text  (yyscan_t yyscanner)
+char *yyget_text  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yytext;
@@ -5100,7 +3452,7 @@ char *hsql_get_text  (yyscan_t yyscanner)
  * @param user_defined The data to be associated with this scanner.
  * @param yyscanner The scanner object.
  */
-void hsql_set_extra (YY_EXTRA_TYPE  user_defined , yyscan_t yyscanner)
+void yyset_extra (YY_EXTRA_TYPE  user_defined , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yyextra = user_defined ;
@@ -5110,13 +3462,13 @@ void hsql_set_extra (YY_EXTRA_TYPE  user_defined , yyscan_t yyscanner)
  * @param _line_number line number
  * @param yyscanner The scanner object.
  */
-void hsql_set_lineno (int  _line_number , yyscan_t yyscanner)
+void yyset_lineno (int  _line_number , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
         /* lineno is only valid if an input buffer exists. */
         if (! YY_CURRENT_BUFFER )
-           YY_FATAL_ERROR( "hsql_set_lineno called with no buffer" );
+           YY_FATAL_ERROR( "yyset_lineno called with no buffer" );
     
     yylineno = _line_number;
 }
@@ -5125,13 +3477,13 @@ void hsql_set_lineno (int  _line_number , yyscan_t yyscanner)
  * @param _column_no column number
  * @param yyscanner The scanner object.
  */
-void hsql_set_column (int  _column_no , yyscan_t yyscanner)
+void yyset_column (int  _column_no , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
         /* column is only valid if an input buffer exists. */
         if (! YY_CURRENT_BUFFER )
-           YY_FATAL_ERROR( "hsql_set_column called with no buffer" );
+           YY_FATAL_ERROR( "yyset_column called with no buffer" );
     
     yycolumn = _column_no;
 }
@@ -5140,27 +3492,27 @@ void hsql_set_column (int  _column_no , yyscan_t yyscanner)
  * input buffer.
  * @param _in_str A readable stream.
  * @param yyscanner The scanner object.
- * @see hsql__switch_to_buffer
+ * @see yy_switch_to_buffer
  */
-void hsql_set_in (FILE *  _in_str , yyscan_t yyscanner)
+void yyset_in (FILE *  _in_str , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yyin = _in_str ;
 }
 
-void hsql_set_out (FILE *  _out_str , yyscan_t yyscanner)
+void yyset_out (FILE *  _out_str , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yyout = _out_str ;
 }
 
-int hsql_get_debug  (yyscan_t yyscanner)
+int yyget_debug  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yy_flex_debug;
 }
 
-void hsql_set_debug (int  _bdebug , yyscan_t yyscanner)
+void yyset_debug (int  _bdebug , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yy_flex_debug = _bdebug ;
@@ -5168,25 +3520,25 @@ void hsql_set_debug (int  _bdebug , yyscan_t yyscanner)
 
 /* Accessor methods for yylval and yylloc */
 
-YYSTYPE * hsql_get_lval  (yyscan_t yyscanner)
+YYSTYPE * yyget_lval  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yylval;
 }
 
-void hsql_set_lval (YYSTYPE *  yylval_param , yyscan_t yyscanner)
+void yyset_lval (YYSTYPE *  yylval_param , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yylval = yylval_param;
 }
 
-YYLTYPE *hsql_get_lloc  (yyscan_t yyscanner)
+YYLTYPE *yyget_lloc  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yylloc;
 }
     
-void hsql_set_lloc (YYLTYPE *  yylloc_param , yyscan_t yyscanner)
+void yyset_lloc (YYLTYPE *  yylloc_param , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yylloc = yylloc_param;
@@ -5194,20 +3546,18 @@ void hsql_set_lloc (YYLTYPE *  yylloc_param , yyscan_t yyscanner)
     
 /* User-visible API */
 
-/* hsql_lex_init is special because it creates the scanner itself, so it is
+/* yylex_init is special because it creates the scanner itself, so it is
  * the ONLY reentrant function that doesn't take the scanner as the last argument.
  * That's why we explicitly handle the declaration, instead of using our macros.
  */
-
-int hsql_lex_init(yyscan_t* ptr_yy_globals)
-
+int yylex_init(yyscan_t* ptr_yy_globals)
 {
     if (ptr_yy_globals == NULL){
         errno = EINVAL;
         return 1;
     }
 
-    *ptr_yy_globals = (yyscan_t) hsql_alloc ( sizeof( struct yyguts_t ), NULL );
+    *ptr_yy_globals = (yyscan_t) yyalloc ( sizeof( struct yyguts_t ), NULL );
 
     if (*ptr_yy_globals == NULL){
         errno = ENOMEM;
@@ -5220,39 +3570,37 @@ int hsql_lex_init(yyscan_t* ptr_yy_globals)
     return yy_init_globals ( *ptr_yy_globals );
 }
 
-/* hsql_lex_init_extra has the same functionality as hsql_lex_init, but follows the
+/* yylex_init_extra has the same functionality as yylex_init, but follows the
  * convention of taking the scanner as the last argument. Note however, that
  * this is a *pointer* to a scanner, as it will be allocated by this call (and
  * is the reason, too, why this function also must handle its own declaration).
- * The user defined value in the first argument will be available to hsql_alloc in
+ * The user defined value in the first argument will be available to yyalloc in
  * the yyextra field.
  */
-
-int hsql_lex_init_extra(YY_EXTRA_TYPE yy_user_defined,yyscan_t* ptr_yy_globals )
-
+int yylex_init_extra( YY_EXTRA_TYPE yy_user_defined, yyscan_t* ptr_yy_globals )
 {
     struct yyguts_t dummy_yyguts;
 
-    hsql_set_extra (yy_user_defined, &dummy_yyguts);
+    yyset_extra (yy_user_defined, &dummy_yyguts);
 
     if (ptr_yy_globals == NULL){
         errno = EINVAL;
         return 1;
     }
-	
-    *ptr_yy_globals = (yyscan_t) hsql_alloc ( sizeof( struct yyguts_t ), &dummy_yyguts );
-	
+
+    *ptr_yy_globals = (yyscan_t) yyalloc ( sizeof( struct yyguts_t ), &dummy_yyguts );
+
     if (*ptr_yy_globals == NULL){
         errno = ENOMEM;
         return 1;
     }
-    
+
     /* By setting to 0xAA, we expose bugs in
     yy_init_globals. Leave at 0x00 for releases. */
     memset(*ptr_yy_globals,0x00,sizeof(struct yyguts_t));
-    
-    hsql_set_extra (yy_user_defined, *ptr_yy_globals);
-    
+
+    yyset_extra (yy_user_defined, *ptr_yy_globals);
+
     return yy_init_globals ( *ptr_yy_globals );
 }
 
@@ -5260,7 +3608,7 @@ static int yy_init_globals (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     /* Initialization is the same as for the non-reentrant scanner.
-     * This function is called from hsql_lex_destroy(), so don't allocate here.
+     * This function is called from yylex_destroy(), so don't allocate here.
      */
 
     yyg->yy_buffer_stack = NULL;
@@ -5284,37 +3632,37 @@ static int yy_init_globals (yyscan_t yyscanner)
 #endif
 
     /* For future reference: Set errno on error, since we are called by
-     * hsql_lex_init()
+     * yylex_init()
      */
     return 0;
 }
 
-/* hsql_lex_destroy is for both reentrant and non-reentrant scanners. */
-int hsql_lex_destroy  (yyscan_t yyscanner)
+/* yylex_destroy is for both reentrant and non-reentrant scanners. */
+int yylex_destroy  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
     /* Pop the buffer stack, destroying each element. */
 	while(YY_CURRENT_BUFFER){
-		hsql__delete_buffer(YY_CURRENT_BUFFER ,yyscanner );
+		yy_delete_buffer( YY_CURRENT_BUFFER , yyscanner );
 		YY_CURRENT_BUFFER_LVALUE = NULL;
-		hsql_pop_buffer_state(yyscanner);
+		yypop_buffer_state(yyscanner);
 	}
 
 	/* Destroy the stack itself. */
-	hsql_free(yyg->yy_buffer_stack ,yyscanner);
+	yyfree(yyg->yy_buffer_stack , yyscanner);
 	yyg->yy_buffer_stack = NULL;
 
     /* Destroy the start condition stack. */
-        hsql_free(yyg->yy_start_stack ,yyscanner );
+        yyfree( yyg->yy_start_stack , yyscanner );
         yyg->yy_start_stack = NULL;
 
     /* Reset the globals. This is important in a non-reentrant scanner so the next time
-     * hsql_lex() is called, initialization will occur. */
+     * yylex() is called, initialization will occur. */
     yy_init_globals( yyscanner);
 
     /* Destroy the main struct (reentrant only). */
-    hsql_free ( yyscanner , yyscanner );
+    yyfree ( yyscanner , yyscanner );
     yyscanner = NULL;
     return 0;
 }
@@ -5324,7 +3672,7 @@ int hsql_lex_destroy  (yyscan_t yyscanner)
  */
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char* s1, yyconst char * s2, int n , yyscan_t yyscanner)
+static void yy_flex_strncpy (char* s1, const char * s2, int n , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
@@ -5336,7 +3684,7 @@ static void yy_flex_strncpy (char* s1, yyconst char * s2, int n , yyscan_t yysca
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * s , yyscan_t yyscanner)
+static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 {
 	int n;
 	for ( n = 0; s[n]; ++n )
@@ -5346,14 +3694,14 @@ static int yy_flex_strlen (yyconst char * s , yyscan_t yyscanner)
 }
 #endif
 
-void *hsql_alloc (yy_size_t  size , yyscan_t yyscanner)
+void *yyalloc (yy_size_t  size , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
 	return malloc(size);
 }
 
-void *hsql_realloc  (void * ptr, yy_size_t  size , yyscan_t yyscanner)
+void *yyrealloc  (void * ptr, yy_size_t  size , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
@@ -5368,17 +3716,16 @@ void *hsql_realloc  (void * ptr, yy_size_t  size , yyscan_t yyscanner)
 	return realloc(ptr, size);
 }
 
-void hsql_free (void * ptr , yyscan_t yyscanner)
+void yyfree (void * ptr , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
-	free( (char *) ptr );	/* see hsql_realloc() for (char *) cast */
+	free( (char *) ptr );	/* see yyrealloc() for (char *) cast */
 }
 
 #define YYTABLES_NAME "yytables"
 
-#line 288 "flex_lexer.l"
-
+#line 285 "flex_lexer.l"
 
 /***************************
  ** Section 3: User code
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index 8beb9fd..b32451b 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -13,11 +13,245 @@
 #define FLEX_SCANNER
 #define YY_FLEX_MAJOR_VERSION 2
 #define YY_FLEX_MINOR_VERSION 6
-#define YY_FLEX_SUBMINOR_VERSION 1
+#define YY_FLEX_SUBMINOR_VERSION 4
 #if YY_FLEX_SUBMINOR_VERSION > 0
 #define FLEX_BETA
 #endif
 
+#ifdef yy_create_buffer
+#define hsql__create_buffer_ALREADY_DEFINED
+#else
+#define yy_create_buffer hsql__create_buffer
+#endif
+
+#ifdef yy_delete_buffer
+#define hsql__delete_buffer_ALREADY_DEFINED
+#else
+#define yy_delete_buffer hsql__delete_buffer
+#endif
+
+#ifdef yy_scan_buffer
+#define hsql__scan_buffer_ALREADY_DEFINED
+#else
+#define yy_scan_buffer hsql__scan_buffer
+#endif
+
+#ifdef yy_scan_string
+#define hsql__scan_string_ALREADY_DEFINED
+#else
+#define yy_scan_string hsql__scan_string
+#endif
+
+#ifdef yy_scan_bytes
+#define hsql__scan_bytes_ALREADY_DEFINED
+#else
+#define yy_scan_bytes hsql__scan_bytes
+#endif
+
+#ifdef yy_init_buffer
+#define hsql__init_buffer_ALREADY_DEFINED
+#else
+#define yy_init_buffer hsql__init_buffer
+#endif
+
+#ifdef yy_flush_buffer
+#define hsql__flush_buffer_ALREADY_DEFINED
+#else
+#define yy_flush_buffer hsql__flush_buffer
+#endif
+
+#ifdef yy_load_buffer_state
+#define hsql__load_buffer_state_ALREADY_DEFINED
+#else
+#define yy_load_buffer_state hsql__load_buffer_state
+#endif
+
+#ifdef yy_switch_to_buffer
+#define hsql__switch_to_buffer_ALREADY_DEFINED
+#else
+#define yy_switch_to_buffer hsql__switch_to_buffer
+#endif
+
+#ifdef yypush_buffer_state
+#define hsql_push_buffer_state_ALREADY_DEFINED
+#else
+#define yypush_buffer_state hsql_push_buffer_state
+#endif
+
+#ifdef yypop_buffer_state
+#define hsql_pop_buffer_state_ALREADY_DEFINED
+#else
+#define yypop_buffer_state hsql_pop_buffer_state
+#endif
+
+#ifdef yyensure_buffer_stack
+#define hsql_ensure_buffer_stack_ALREADY_DEFINED
+#else
+#define yyensure_buffer_stack hsql_ensure_buffer_stack
+#endif
+
+#ifdef yylex
+#define hsql_lex_ALREADY_DEFINED
+#else
+#define yylex hsql_lex
+#endif
+
+#ifdef yyrestart
+#define hsql_restart_ALREADY_DEFINED
+#else
+#define yyrestart hsql_restart
+#endif
+
+#ifdef yylex_init
+#define hsql_lex_init_ALREADY_DEFINED
+#else
+#define yylex_init hsql_lex_init
+#endif
+
+#ifdef yylex_init_extra
+#define hsql_lex_init_extra_ALREADY_DEFINED
+#else
+#define yylex_init_extra hsql_lex_init_extra
+#endif
+
+#ifdef yylex_destroy
+#define hsql_lex_destroy_ALREADY_DEFINED
+#else
+#define yylex_destroy hsql_lex_destroy
+#endif
+
+#ifdef yyget_debug
+#define hsql_get_debug_ALREADY_DEFINED
+#else
+#define yyget_debug hsql_get_debug
+#endif
+
+#ifdef yyset_debug
+#define hsql_set_debug_ALREADY_DEFINED
+#else
+#define yyset_debug hsql_set_debug
+#endif
+
+#ifdef yyget_extra
+#define hsql_get_extra_ALREADY_DEFINED
+#else
+#define yyget_extra hsql_get_extra
+#endif
+
+#ifdef yyset_extra
+#define hsql_set_extra_ALREADY_DEFINED
+#else
+#define yyset_extra hsql_set_extra
+#endif
+
+#ifdef yyget_in
+#define hsql_get_in_ALREADY_DEFINED
+#else
+#define yyget_in hsql_get_in
+#endif
+
+#ifdef yyset_in
+#define hsql_set_in_ALREADY_DEFINED
+#else
+#define yyset_in hsql_set_in
+#endif
+
+#ifdef yyget_out
+#define hsql_get_out_ALREADY_DEFINED
+#else
+#define yyget_out hsql_get_out
+#endif
+
+#ifdef yyset_out
+#define hsql_set_out_ALREADY_DEFINED
+#else
+#define yyset_out hsql_set_out
+#endif
+
+#ifdef yyget_leng
+#define hsql_get_leng_ALREADY_DEFINED
+#else
+#define yyget_leng hsql_get_leng
+#endif
+
+#ifdef yyget_text
+#define hsql_get_text_ALREADY_DEFINED
+#else
+#define yyget_text hsql_get_text
+#endif
+
+#ifdef yyget_lineno
+#define hsql_get_lineno_ALREADY_DEFINED
+#else
+#define yyget_lineno hsql_get_lineno
+#endif
+
+#ifdef yyset_lineno
+#define hsql_set_lineno_ALREADY_DEFINED
+#else
+#define yyset_lineno hsql_set_lineno
+#endif
+
+#ifdef yyget_column
+#define hsql_get_column_ALREADY_DEFINED
+#else
+#define yyget_column hsql_get_column
+#endif
+
+#ifdef yyset_column
+#define hsql_set_column_ALREADY_DEFINED
+#else
+#define yyset_column hsql_set_column
+#endif
+
+#ifdef yywrap
+#define hsql_wrap_ALREADY_DEFINED
+#else
+#define yywrap hsql_wrap
+#endif
+
+#ifdef yyget_lval
+#define hsql_get_lval_ALREADY_DEFINED
+#else
+#define yyget_lval hsql_get_lval
+#endif
+
+#ifdef yyset_lval
+#define hsql_set_lval_ALREADY_DEFINED
+#else
+#define yyset_lval hsql_set_lval
+#endif
+
+#ifdef yyget_lloc
+#define hsql_get_lloc_ALREADY_DEFINED
+#else
+#define yyget_lloc hsql_get_lloc
+#endif
+
+#ifdef yyset_lloc
+#define hsql_set_lloc_ALREADY_DEFINED
+#else
+#define yyset_lloc hsql_set_lloc
+#endif
+
+#ifdef yyalloc
+#define hsql_alloc_ALREADY_DEFINED
+#else
+#define yyalloc hsql_alloc
+#endif
+
+#ifdef yyrealloc
+#define hsql_realloc_ALREADY_DEFINED
+#else
+#define yyrealloc hsql_realloc
+#endif
+
+#ifdef yyfree
+#define hsql_free_ALREADY_DEFINED
+#else
+#define yyfree hsql_free
+#endif
+
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
@@ -88,10 +322,16 @@ typedef unsigned int flex_uint32_t;
 #define UINT32_MAX             (4294967295U)
 #endif
 
+#ifndef SIZE_MAX
+#define SIZE_MAX               (~(size_t)0)
+#endif
+
 #endif /* ! C99 */
 
 #endif /* ! FLEXINT_H */
 
+/* begin standard C++ headers. */
+
 /* TODO: this is always defined, so inline it */
 #define yyconst const
 
@@ -181,7 +421,7 @@ struct yy_buffer_state
 
     int yy_bs_lineno; /**< The line count. */
     int yy_bs_column; /**< The column count. */
-    
+
 	/* Whether to try to fill the input buffer when we reach the
 	 * end of it.
 	 */
@@ -192,21 +432,21 @@ struct yy_buffer_state
 	};
 #endif /* !YY_STRUCT_YY_BUFFER_STATE */
 
-void hsql_restart (FILE *input_file ,yyscan_t yyscanner );
-void hsql__switch_to_buffer (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__create_buffer (FILE *file,int size ,yyscan_t yyscanner );
-void hsql__delete_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql__flush_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-void hsql_pop_buffer_state (yyscan_t yyscanner );
+void yyrestart ( FILE *input_file , yyscan_t yyscanner );
+void yy_switch_to_buffer ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_create_buffer ( FILE *file, int size , yyscan_t yyscanner );
+void yy_delete_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yy_flush_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yypush_buffer_state ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+void yypop_buffer_state ( yyscan_t yyscanner );
 
-YY_BUFFER_STATE hsql__scan_buffer (char *base,yy_size_t size ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_string (yyconst char *yy_str ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_bytes (yyconst char *bytes,int len ,yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_string ( const char *yy_str , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len , yyscan_t yyscanner );
 
-void *hsql_alloc (yy_size_t ,yyscan_t yyscanner );
-void *hsql_realloc (void *,yy_size_t ,yyscan_t yyscanner );
-void hsql_free (void * ,yyscan_t yyscanner );
+void *yyalloc ( yy_size_t , yyscan_t yyscanner );
+void *yyrealloc ( void *, yy_size_t , yyscan_t yyscanner );
+void yyfree ( void * , yyscan_t yyscanner );
 
 /* Begin user sect3 */
 
@@ -218,7 +458,6 @@ void hsql_free (void * ,yyscan_t yyscanner );
 #ifdef YY_HEADER_EXPORT_START_CONDITIONS
 #define INITIAL 0
 #define singlequotedstring 1
-#define COMMENT 2
 
 #endif
 
@@ -234,50 +473,50 @@ void hsql_free (void * ,yyscan_t yyscanner );
 #define YY_EXTRA_TYPE void *
 #endif
 
-int hsql_lex_init (yyscan_t* scanner);
+int yylex_init (yyscan_t* scanner);
 
-int hsql_lex_init_extra (YY_EXTRA_TYPE user_defined,yyscan_t* scanner);
+int yylex_init_extra ( YY_EXTRA_TYPE user_defined, yyscan_t* scanner);
 
 /* Accessor methods to globals.
    These are made visible to non-reentrant scanners for convenience. */
 
-int hsql_lex_destroy (yyscan_t yyscanner );
+int yylex_destroy ( yyscan_t yyscanner );
 
-int hsql_get_debug (yyscan_t yyscanner );
+int yyget_debug ( yyscan_t yyscanner );
 
-void hsql_set_debug (int debug_flag ,yyscan_t yyscanner );
+void yyset_debug ( int debug_flag , yyscan_t yyscanner );
 
-YY_EXTRA_TYPE hsql_get_extra (yyscan_t yyscanner );
+YY_EXTRA_TYPE yyget_extra ( yyscan_t yyscanner );
 
-void hsql_set_extra (YY_EXTRA_TYPE user_defined ,yyscan_t yyscanner );
+void yyset_extra ( YY_EXTRA_TYPE user_defined , yyscan_t yyscanner );
 
-FILE *hsql_get_in (yyscan_t yyscanner );
+FILE *yyget_in ( yyscan_t yyscanner );
 
-void hsql_set_in  (FILE * _in_str ,yyscan_t yyscanner );
+void yyset_in  ( FILE * _in_str , yyscan_t yyscanner );
 
-FILE *hsql_get_out (yyscan_t yyscanner );
+FILE *yyget_out ( yyscan_t yyscanner );
 
-void hsql_set_out  (FILE * _out_str ,yyscan_t yyscanner );
+void yyset_out  ( FILE * _out_str , yyscan_t yyscanner );
 
-			int hsql_get_leng (yyscan_t yyscanner );
+			int yyget_leng ( yyscan_t yyscanner );
 
-char *hsql_get_text (yyscan_t yyscanner );
+char *yyget_text ( yyscan_t yyscanner );
 
-int hsql_get_lineno (yyscan_t yyscanner );
+int yyget_lineno ( yyscan_t yyscanner );
 
-void hsql_set_lineno (int _line_number ,yyscan_t yyscanner );
+void yyset_lineno ( int _line_number , yyscan_t yyscanner );
 
-int hsql_get_column  (yyscan_t yyscanner );
+int yyget_column  ( yyscan_t yyscanner );
 
-void hsql_set_column (int _column_no ,yyscan_t yyscanner );
+void yyset_column ( int _column_no , yyscan_t yyscanner );
 
-YYSTYPE * hsql_get_lval (yyscan_t yyscanner );
+YYSTYPE * yyget_lval ( yyscan_t yyscanner );
 
-void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
+void yyset_lval ( YYSTYPE * yylval_param , yyscan_t yyscanner );
 
-       YYLTYPE *hsql_get_lloc (yyscan_t yyscanner );
+       YYLTYPE *yyget_lloc ( yyscan_t yyscanner );
     
-        void hsql_set_lloc (YYLTYPE * yylloc_param ,yyscan_t yyscanner );
+        void yyset_lloc ( YYLTYPE * yylloc_param , yyscan_t yyscanner );
     
 /* Macros after this point can all be overridden by user definitions in
  * section 1.
@@ -285,18 +524,18 @@ void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
 
 #ifndef YY_SKIP_YYWRAP
 #ifdef __cplusplus
-extern "C" int hsql_wrap (yyscan_t yyscanner );
+extern "C" int yywrap ( yyscan_t yyscanner );
 #else
-extern int hsql_wrap (yyscan_t yyscanner );
+extern int yywrap ( yyscan_t yyscanner );
 #endif
 #endif
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char *,yyconst char *,int ,yyscan_t yyscanner);
+static void yy_flex_strncpy ( char *, const char *, int , yyscan_t yyscanner);
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * ,yyscan_t yyscanner);
+static int yy_flex_strlen ( const char * , yyscan_t yyscanner);
 #endif
 
 #ifndef YY_NO_INPUT
@@ -324,10 +563,10 @@ static int yy_flex_strlen (yyconst char * ,yyscan_t yyscanner);
 #ifndef YY_DECL
 #define YY_DECL_IS_OURS 1
 
-extern int hsql_lex \
-               (YYSTYPE * yylval_param,YYLTYPE * yylloc_param ,yyscan_t yyscanner);
+extern int yylex \
+               (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner);
 
-#define YY_DECL int hsql_lex \
+#define YY_DECL int yylex \
                (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner)
 #endif /* !YY_DECL */
 
@@ -345,9 +584,154 @@ extern int hsql_lex \
 #undef YY_DECL
 #endif
 
-#line 288 "flex_lexer.l"
+#ifndef hsql__create_buffer_ALREADY_DEFINED
+#undef yy_create_buffer
+#endif
+#ifndef hsql__delete_buffer_ALREADY_DEFINED
+#undef yy_delete_buffer
+#endif
+#ifndef hsql__scan_buffer_ALREADY_DEFINED
+#undef yy_scan_buffer
+#endif
+#ifndef hsql__scan_string_ALREADY_DEFINED
+#undef yy_scan_string
+#endif
+#ifndef hsql__scan_bytes_ALREADY_DEFINED
+#undef yy_scan_bytes
+#endif
+#ifndef hsql__init_buffer_ALREADY_DEFINED
+#undef yy_init_buffer
+#endif
+#ifndef hsql__flush_buffer_ALREADY_DEFINED
+#undef yy_flush_buffer
+#endif
+#ifndef hsql__load_buffer_state_ALREADY_DEFINED
+#undef yy_load_buffer_state
+#endif
+#ifndef hsql__switch_to_buffer_ALREADY_DEFINED
+#undef yy_switch_to_buffer
+#endif
+#ifndef hsql_push_buffer_state_ALREADY_DEFINED
+#undef yypush_buffer_state
+#endif
+#ifndef hsql_pop_buffer_state_ALREADY_DEFINED
+#undef yypop_buffer_state
+#endif
+#ifndef hsql_ensure_buffer_stack_ALREADY_DEFINED
+#undef yyensure_buffer_stack
+#endif
+#ifndef hsql_lex_ALREADY_DEFINED
+#undef yylex
+#endif
+#ifndef hsql_restart_ALREADY_DEFINED
+#undef yyrestart
+#endif
+#ifndef hsql_lex_init_ALREADY_DEFINED
+#undef yylex_init
+#endif
+#ifndef hsql_lex_init_extra_ALREADY_DEFINED
+#undef yylex_init_extra
+#endif
+#ifndef hsql_lex_destroy_ALREADY_DEFINED
+#undef yylex_destroy
+#endif
+#ifndef hsql_get_debug_ALREADY_DEFINED
+#undef yyget_debug
+#endif
+#ifndef hsql_set_debug_ALREADY_DEFINED
+#undef yyset_debug
+#endif
+#ifndef hsql_get_extra_ALREADY_DEFINED
+#undef yyget_extra
+#endif
+#ifndef hsql_set_extra_ALREADY_DEFINED
+#undef yyset_extra
+#endif
+#ifndef hsql_get_in_ALREADY_DEFINED
+#undef yyget_in
+#endif
+#ifndef hsql_set_in_ALREADY_DEFINED
+#undef yyset_in
+#endif
+#ifndef hsql_get_out_ALREADY_DEFINED
+#undef yyget_out
+#endif
+#ifndef hsql_set_out_ALREADY_DEFINED
+#undef yyset_out
+#endif
+#ifndef hsql_get_leng_ALREADY_DEFINED
+#undef yyget_leng
+#endif
+#ifndef hsql_get_text_ALREADY_DEFINED
+#undef yyget_text
+#endif
+#ifndef hsql_get_lineno_ALREADY_DEFINED
+#undef yyget_lineno
+#endif
+#ifndef hsql_set_lineno_ALREADY_DEFINED
+#undef yyset_lineno
+#endif
+#ifndef hsql_get_column_ALREADY_DEFINED
+#undef yyget_column
+#endif
+#ifndef hsql_set_column_ALREADY_DEFINED
+#undef yyset_column
+#endif
+#ifndef hsql_wrap_ALREADY_DEFINED
+#undef yywrap
+#endif
+#ifndef hsql_get_lval_ALREADY_DEFINED
+#undef yyget_lval
+#endif
+#ifndef hsql_set_lval_ALREADY_DEFINED
+#undef yyset_lval
+#endif
+#ifndef hsql_get_lloc_ALREADY_DEFINED
+#undef yyget_lloc
+#endif
+#ifndef hsql_set_lloc_ALREADY_DEFINED
+#undef yyset_lloc
+#endif
+#ifndef hsql_alloc_ALREADY_DEFINED
+#undef yyalloc
+#endif
+#ifndef hsql_realloc_ALREADY_DEFINED
+#undef yyrealloc
+#endif
+#ifndef hsql_free_ALREADY_DEFINED
+#undef yyfree
+#endif
+#ifndef hsql_text_ALREADY_DEFINED
+#undef yytext
+#endif
+#ifndef hsql_leng_ALREADY_DEFINED
+#undef yyleng
+#endif
+#ifndef hsql_in_ALREADY_DEFINED
+#undef yyin
+#endif
+#ifndef hsql_out_ALREADY_DEFINED
+#undef yyout
+#endif
+#ifndef hsql__flex_debug_ALREADY_DEFINED
+#undef yy_flex_debug
+#endif
+#ifndef hsql_lineno_ALREADY_DEFINED
+#undef yylineno
+#endif
+#ifndef hsql_tables_fload_ALREADY_DEFINED
+#undef yytables_fload
+#endif
+#ifndef hsql_tables_destroy_ALREADY_DEFINED
+#undef yytables_destroy
+#endif
+#ifndef hsql_TABLES_NAME_ALREADY_DEFINED
+#undef yyTABLES_NAME
+#endif
+
+#line 285 "flex_lexer.l"
 
 
-#line 352 "flex_lexer.h"
+#line 736 "flex_lexer.h"
 #undef hsql_IN_HEADER
 #endif /* hsql_HEADER_H */
-- 
2.43.0


From a859a1966b9ba47919d07c232597c9ccc44bf9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 18/18] fix: apply NOT to a following IN or BETWEEN expression

---
 src/parser/bison_parser.cpp | 8325 ++++++++++++++++++-----------------
 src/parser/bison_parser.y   |    9 +-
 2 files changed, 4260 insertions(+), 4074 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 8484208..6c34248 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -414,61 +414,62 @@ enum yysymbol_kind_t
   YYSYMBOL_unary_expr = 278,               /* unary_expr  */
   YYSYMBOL_binary_expr = 279,              /* binary_expr  */
   YYSYMBOL_logic_expr = 280,               /* logic_expr  */
-  YYSYMBOL_in_expr = 281,                  /* in_expr  */
-  YYSYMBOL_case_expr = 282,                /* case_expr  */
-  YYSYMBOL_case_list = 283,                /* case_list  */
-  YYSYMBOL_exists_expr = 284,              /* exists_expr  */
-  YYSYMBOL_comp_expr = 285,                /* comp_expr  */
-  YYSYMBOL_function_expr = 286,            /* function_expr  */
-  YYSYMBOL_opt_window = 287,               /* opt_window  */
-  YYSYMBOL_opt_partition = 288,            /* opt_partition  */
-  YYSYMBOL_opt_frame_clause = 289,         /* opt_frame_clause  */
-  YYSYMBOL_frame_type = 290,               /* frame_type  */
-  YYSYMBOL_frame_bound = 291,              /* frame_bound  */
-  YYSYMBOL_extract_expr = 292,             /* extract_expr  */
-  YYSYMBOL_cast_expr = 293,                /* cast_expr  */
-  YYSYMBOL_datetime_field = 294,           /* datetime_field  */
-  YYSYMBOL_datetime_field_plural = 295,    /* datetime_field_plural  */
-  YYSYMBOL_duration_field = 296,           /* duration_field  */
-  YYSYMBOL_array_expr = 297,               /* array_expr  */
-  YYSYMBOL_array_index = 298,              /* array_index  */
-  YYSYMBOL_between_expr = 299,             /* between_expr  */
-  YYSYMBOL_column_name = 300,              /* column_name  */
-  YYSYMBOL_literal = 301,                  /* literal  */
-  YYSYMBOL_string_literal = 302,           /* string_literal  */
-  YYSYMBOL_bool_literal = 303,             /* bool_literal  */
-  YYSYMBOL_num_literal = 304,              /* num_literal  */
-  YYSYMBOL_int_literal = 305,              /* int_literal  */
-  YYSYMBOL_null_literal = 306,             /* null_literal  */
-  YYSYMBOL_date_literal = 307,             /* date_literal  */
-  YYSYMBOL_interval_literal = 308,         /* interval_literal  */
-  YYSYMBOL_param_expr = 309,               /* param_expr  */
-  YYSYMBOL_table_ref = 310,                /* table_ref  */
-  YYSYMBOL_table_ref_atomic = 311,         /* table_ref_atomic  */
-  YYSYMBOL_nonjoin_table_ref_atomic = 312, /* nonjoin_table_ref_atomic  */
-  YYSYMBOL_table_ref_commalist = 313,      /* table_ref_commalist  */
-  YYSYMBOL_table_ref_name = 314,           /* table_ref_name  */
-  YYSYMBOL_table_ref_name_no_alias = 315,  /* table_ref_name_no_alias  */
-  YYSYMBOL_table_name = 316,               /* table_name  */
-  YYSYMBOL_opt_index_name = 317,           /* opt_index_name  */
-  YYSYMBOL_table_alias = 318,              /* table_alias  */
-  YYSYMBOL_opt_table_alias = 319,          /* opt_table_alias  */
-  YYSYMBOL_alias = 320,                    /* alias  */
-  YYSYMBOL_opt_alias = 321,                /* opt_alias  */
-  YYSYMBOL_opt_locking_clause = 322,       /* opt_locking_clause  */
-  YYSYMBOL_opt_locking_clause_list = 323,  /* opt_locking_clause_list  */
-  YYSYMBOL_locking_clause = 324,           /* locking_clause  */
-  YYSYMBOL_row_lock_mode = 325,            /* row_lock_mode  */
-  YYSYMBOL_opt_row_lock_policy = 326,      /* opt_row_lock_policy  */
-  YYSYMBOL_opt_with_clause = 327,          /* opt_with_clause  */
-  YYSYMBOL_with_clause = 328,              /* with_clause  */
-  YYSYMBOL_with_description_list = 329,    /* with_description_list  */
-  YYSYMBOL_with_description = 330,         /* with_description  */
-  YYSYMBOL_join_clause = 331,              /* join_clause  */
-  YYSYMBOL_opt_join_type = 332,            /* opt_join_type  */
-  YYSYMBOL_join_condition = 333,           /* join_condition  */
-  YYSYMBOL_opt_semicolon = 334,            /* opt_semicolon  */
-  YYSYMBOL_ident_commalist = 335           /* ident_commalist  */
+  YYSYMBOL_not_expr = 281,                 /* not_expr  */
+  YYSYMBOL_in_expr = 282,                  /* in_expr  */
+  YYSYMBOL_case_expr = 283,                /* case_expr  */
+  YYSYMBOL_case_list = 284,                /* case_list  */
+  YYSYMBOL_exists_expr = 285,              /* exists_expr  */
+  YYSYMBOL_comp_expr = 286,                /* comp_expr  */
+  YYSYMBOL_function_expr = 287,            /* function_expr  */
+  YYSYMBOL_opt_window = 288,               /* opt_window  */
+  YYSYMBOL_opt_partition = 289,            /* opt_partition  */
+  YYSYMBOL_opt_frame_clause = 290,         /* opt_frame_clause  */
+  YYSYMBOL_frame_type = 291,               /* frame_type  */
+  YYSYMBOL_frame_bound = 292,              /* frame_bound  */
+  YYSYMBOL_extract_expr = 293,             /* extract_expr  */
+  YYSYMBOL_cast_expr = 294,                /* cast_expr  */
+  YYSYMBOL_datetime_field = 295,           /* datetime_field  */
+  YYSYMBOL_datetime_field_plural = 296,    /* datetime_field_plural  */
+  YYSYMBOL_duration_field = 297,           /* duration_field  */
+  YYSYMBOL_array_expr = 298,               /* array_expr  */
+  YYSYMBOL_array_index = 299,              /* array_index  */
+  YYSYMBOL_between_expr = 300,             /* between_expr  */
+  YYSYMBOL_column_name = 301,              /* column_name  */
+  YYSYMBOL_literal = 302,                  /* literal  */
+  YYSYMBOL_string_literal = 303,           /* string_literal  */
+  YYSYMBOL_bool_literal = 304,             /* bool_literal  */
+  YYSYMBOL_num_literal = 305,              /* num_literal  */
+  YYSYMBOL_int_literal = 306,              /* int_literal  */
+  YYSYMBOL_null_literal = 307,             /* null_literal  */
+  YYSYMBOL_date_literal = 308,             /* date_literal  */
+  YYSYMBOL_interval_literal = 309,         /* interval_literal  */
+  YYSYMBOL_param_expr = 310,               /* param_expr  */
+  YYSYMBOL_table_ref = 311,                /* table_ref  */
+  YYSYMBOL_table_ref_atomic = 312,         /* table_ref_atomic  */
+  YYSYMBOL_nonjoin_table_ref_atomic = 313, /* nonjoin_table_ref_atomic  */
+  YYSYMBOL_table_ref_commalist = 314,      /* table_ref_commalist  */
+  YYSYMBOL_table_ref_name = 315,           /* table_ref_name  */
+  YYSYMBOL_table_ref_name_no_alias = 316,  /* table_ref_name_no_alias  */
+  YYSYMBOL_table_name = 317,               /* table_name  */
+  YYSYMBOL_opt_index_name = 318,           /* opt_index_name  */
+  YYSYMBOL_table_alias = 319,              /* table_alias  */
+  YYSYMBOL_opt_table_alias = 320,          /* opt_table_alias  */
+  YYSYMBOL_alias = 321,                    /* alias  */
+  YYSYMBOL_opt_alias = 322,                /* opt_alias  */
+  YYSYMBOL_opt_locking_clause = 323,       /* opt_locking_clause  */
+  YYSYMBOL_opt_locking_clause_list = 324,  /* opt_locking_clause_list  */
+  YYSYMBOL_locking_clause = 325,           /* locking_clause  */
+  YYSYMBOL_row_lock_mode = 326,            /* row_lock_mode  */
+  YYSYMBOL_opt_row_lock_policy = 327,      /* opt_row_lock_policy  */
+  YYSYMBOL_opt_with_clause = 328,          /* opt_with_clause  */
+  YYSYMBOL_with_clause = 329,              /* with_clause  */
+  YYSYMBOL_with_description_list = 330,    /* with_description_list  */
+  YYSYMBOL_with_description = 331,         /* with_description  */
+  YYSYMBOL_join_clause = 332,              /* join_clause  */
+  YYSYMBOL_opt_join_type = 333,            /* opt_join_type  */
+  YYSYMBOL_join_condition = 334,           /* join_condition  */
+  YYSYMBOL_opt_semicolon = 335,            /* opt_semicolon  */
+  YYSYMBOL_ident_commalist = 336           /* ident_commalist  */
 };
 typedef enum yysymbol_kind_t yysymbol_kind_t;
 
@@ -799,16 +800,16 @@ union yyalloc
 /* YYFINAL -- State number of the termination state.  */
 #define YYFINAL  69
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   21132
+#define YYLAST   21883
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  200
 /* YYNNTS -- Number of nonterminals.  */
-#define YYNNTS  136
+#define YYNNTS  137
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  357
+#define YYNRULES  361
 /* YYNSTATES -- Number of states.  */
-#define YYNSTATES  656
+#define YYNSTATES  662
 
 /* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   437
@@ -875,42 +876,43 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   351,   351,   370,   376,   383,   387,   391,   392,   393,
-     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
-     410,   411,   413,   417,   422,   426,   436,   437,   438,   440,
-     440,   446,   452,   454,   458,   470,   476,   493,   508,   510,
-     511,   512,   514,   528,   532,   542,   546,   570,   578,   591,
-     598,   613,   633,   634,   639,   650,   666,   678,   685,   693,
-     702,   703,   705,   709,   714,   715,   717,   728,   729,   730,
-     731,   732,   733,   734,   738,   739,   740,   741,   742,   743,
-     744,   745,   746,   747,   748,   750,   751,   753,   754,   755,
-     757,   758,   760,   764,   768,   773,   781,   782,   783,   784,
-     786,   787,   788,   790,   798,   804,   810,   816,   822,   823,
-     830,   836,   838,   848,   855,   866,   873,   881,   882,   889,
-     896,   900,   905,   915,   919,   923,   935,   935,   937,   938,
-     947,   948,   950,   964,   976,   981,   985,   989,   994,   995,
-     997,  1007,  1008,  1010,  1012,  1013,  1015,  1017,  1018,  1020,
-    1025,  1027,  1028,  1030,  1031,  1033,  1037,  1042,  1044,  1045,
-    1046,  1048,  1049,  1071,  1072,  1074,  1075,  1076,  1077,  1078,
-    1079,  1084,  1088,  1094,  1095,  1097,  1101,  1106,  1106,  1110,
-    1118,  1119,  1121,  1130,  1130,  1130,  1130,  1130,  1132,  1133,
-    1133,  1133,  1133,  1133,  1133,  1133,  1133,  1134,  1134,  1138,
-    1138,  1140,  1141,  1142,  1143,  1144,  1146,  1146,  1147,  1148,
-    1149,  1150,  1151,  1152,  1153,  1154,  1155,  1157,  1158,  1160,
-    1161,  1162,  1163,  1167,  1168,  1169,  1170,  1172,  1173,  1175,
-    1176,  1178,  1179,  1180,  1181,  1182,  1183,  1184,  1188,  1189,
-    1190,  1191,  1195,  1196,  1198,  1199,  1204,  1205,  1206,  1210,
-    1211,  1212,  1214,  1215,  1216,  1217,  1218,  1220,  1222,  1224,
-    1225,  1226,  1227,  1228,  1229,  1231,  1232,  1233,  1234,  1235,
-    1236,  1238,  1238,  1240,  1242,  1247,  1249,  1250,  1251,  1252,
-    1254,  1254,  1254,  1254,  1254,  1254,  1254,  1256,  1258,  1259,
-    1261,  1262,  1264,  1266,  1268,  1279,  1280,  1293,  1327,  1336,
-    1336,  1343,  1343,  1345,  1345,  1352,  1356,  1361,  1369,  1375,
-    1379,  1384,  1385,  1387,  1387,  1389,  1389,  1391,  1392,  1394,
-    1394,  1400,  1401,  1403,  1407,  1412,  1418,  1425,  1426,  1427,
-    1428,  1430,  1431,  1432,  1438,  1438,  1440,  1442,  1446,  1451,
-    1461,  1468,  1476,  1485,  1486,  1487,  1488,  1489,  1490,  1491,
-    1492,  1493,  1494,  1496,  1502,  1502,  1505,  1509
+       0,   352,   352,   371,   377,   384,   388,   392,   393,   394,
+     396,   397,   398,   399,   400,   401,   402,   403,   404,   405,
+     411,   412,   414,   418,   423,   427,   437,   438,   439,   441,
+     441,   447,   453,   455,   459,   471,   477,   494,   509,   511,
+     512,   513,   515,   529,   533,   543,   547,   571,   579,   592,
+     599,   614,   634,   635,   640,   651,   667,   679,   686,   694,
+     703,   704,   706,   710,   715,   716,   718,   729,   730,   731,
+     732,   733,   734,   735,   739,   740,   741,   742,   743,   744,
+     745,   746,   747,   748,   749,   751,   752,   754,   755,   756,
+     758,   759,   761,   765,   769,   774,   782,   783,   784,   785,
+     787,   788,   789,   791,   799,   805,   811,   817,   823,   824,
+     831,   837,   839,   849,   856,   867,   874,   882,   883,   890,
+     897,   901,   906,   916,   920,   924,   936,   936,   938,   939,
+     948,   949,   951,   965,   977,   982,   986,   990,   995,   996,
+     998,  1008,  1009,  1011,  1013,  1014,  1016,  1018,  1019,  1021,
+    1026,  1028,  1029,  1031,  1032,  1034,  1038,  1043,  1045,  1046,
+    1047,  1049,  1050,  1072,  1073,  1075,  1076,  1077,  1078,  1079,
+    1080,  1085,  1089,  1095,  1096,  1098,  1102,  1107,  1107,  1111,
+    1119,  1120,  1122,  1131,  1131,  1131,  1131,  1131,  1131,  1133,
+    1134,  1134,  1134,  1134,  1134,  1134,  1134,  1134,  1135,  1135,
+    1139,  1139,  1141,  1142,  1143,  1144,  1145,  1147,  1147,  1148,
+    1149,  1150,  1151,  1152,  1153,  1154,  1155,  1156,  1158,  1159,
+    1161,  1162,  1163,  1165,  1166,  1167,  1168,  1172,  1173,  1174,
+    1175,  1177,  1178,  1180,  1181,  1183,  1184,  1185,  1186,  1187,
+    1188,  1189,  1193,  1194,  1195,  1196,  1200,  1201,  1203,  1204,
+    1209,  1210,  1211,  1215,  1216,  1217,  1219,  1220,  1221,  1222,
+    1223,  1225,  1227,  1229,  1230,  1231,  1232,  1233,  1234,  1236,
+    1237,  1238,  1239,  1240,  1241,  1243,  1243,  1245,  1247,  1252,
+    1254,  1255,  1256,  1257,  1259,  1259,  1259,  1259,  1259,  1259,
+    1259,  1261,  1263,  1264,  1266,  1267,  1269,  1271,  1273,  1284,
+    1285,  1298,  1332,  1341,  1341,  1348,  1348,  1350,  1350,  1357,
+    1361,  1366,  1374,  1380,  1384,  1389,  1390,  1392,  1392,  1394,
+    1394,  1396,  1397,  1399,  1399,  1405,  1406,  1408,  1412,  1417,
+    1423,  1430,  1431,  1432,  1433,  1435,  1436,  1437,  1443,  1443,
+    1445,  1447,  1451,  1456,  1466,  1473,  1481,  1490,  1491,  1492,
+    1493,  1494,  1495,  1496,  1497,  1498,  1499,  1501,  1507,  1507,
+    1510,  1514
 };
 #endif
 
@@ -976,8 +978,8 @@ static const char *const yytname[] =
   "opt_top", "opt_limit", "expr_list", "opt_extended_literal_list",
   "extended_literal_list", "casted_extended_literal", "extended_literal",
   "expr_alias", "expr", "operand", "scalar_expr", "unary_expr",
-  "binary_expr", "logic_expr", "in_expr", "case_expr", "case_list",
-  "exists_expr", "comp_expr", "function_expr", "opt_window",
+  "binary_expr", "logic_expr", "not_expr", "in_expr", "case_expr",
+  "case_list", "exists_expr", "comp_expr", "function_expr", "opt_window",
   "opt_partition", "opt_frame_clause", "frame_type", "frame_bound",
   "extract_expr", "cast_expr", "datetime_field", "datetime_field_plural",
   "duration_field", "array_expr", "array_index", "between_expr",
@@ -1000,12 +1002,12 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-501)
+#define YYPACT_NINF (-505)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
 
-#define YYTABLE_NINF (-358)
+#define YYTABLE_NINF (-362)
 
 #define yytable_value_is_error(Yyn) \
   0
@@ -1014,72 +1016,73 @@ yysymbol_name (yysymbol_kind_t yysymbol)
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-   20938,    15,    58,    62,    84,    58,    -1,   -31,   -27,   -13,
-      58,    46,    21,   535,     2,   284,   111,   111,   111,   325,
-      44,    53,    40,    51,    40,   297,    56,    70,    81,   572,
-     584,   596,   782,   783,   786,   787,   805,   124,   435,   436,
-   18521,   851,   211,   302,    94,   471,    65,    65,    58,   479,
-      58,   363,   382,   306,   124,   201,   -20,   306,   306,   306,
-      58,   106,   402,   237,   303,   863,   902,   906,   909,  -501,
-   20876,   545,   458,   109,   115, 20262,   107,    64,   982,   962,
-     578,  1546,   563,   468,    42,    58,    58,   393,   678,   498,
-     210,   636,   601,    58,   460,   469,   649,   649,   649,   665,
-      58,    58,   120,   520,   284,   144,   541,   725, 20484,   345,
-     670,   685,   124,   810,   620,   124,   593, 18629,  1339,  1530,
-     371,   570,   770,  1721,   802,  1912,  2103,    54,  2294,   602,
-     192,   226,   739,   724,  2485,  2676,  2867,  3058,  3249,  3440,
-    3631,  3822,   965,   974,   719,   679,   684,   564,   -97, 20638,
-     989,   649,   835,   383,   669,    82,   117,   837,   765, 16153,
-   16451,   331,   428,   438,   428,  1013,  1043,  1076,   376,   494,
-     843, 20283, 20502, 20662, 20638,    47,   523,   594,  1173,   609,
-     619, 20638,   708, 20638, 19386,    50,  4013,  4204,  4395,  4586,
-    4777,  4968,  5159,  5350,  5541,  5732,  5923,  6114,  6305,  6496,
-    6687,  1394,  6878,   562,   861,   924,  1091,  1549,   228,    58,
-     877,   409,   167,   758,   753,   693,   704,   710, 19602, 20715,
-     729, 20775,  7069, 20512, 16966,  7260,  7451,  7642,  7833, 16958,
-   17088,  8024, 17218,  8215,  8406,  8597,  8788,  8979,  9170, 17348,
-    9361,  9552,   813,   186,   956,   750,  1092, 20638,   636,  1093,
-     914,  1104,  1107,   769,   793,   156,    35,   171,  1052,   972,
-    1001, 20118, 20083, 19849, 18876,   537,   124,   413,   423,   194,
-     593,    77,   913,   775,   550,   524,    86,   597,   842,  9743,
-    1113,   811,   894,  1153,  2025,   818,   836,   844,  1114,  1151,
-    1168,  1176,   409, 20390,    23,   959,  1424, 20638, 20638,   950,
-     883,   831, 20775,  9934, 20638, 10125,   845,   -94, 20638, 20638,
-   20775, 10316, 20775,   472,   847,   -29, 20775, 20775, 20775, 20775,
-   20775, 20775, 20775, 20775, 20775, 20775, 20775, 20775, 20775, 20775,
-   20775,   725,    58,  1570,  1047,  1549,   332,   172,   306,   793,
-    1051,  1053,   479,  1063,  1187,  1191,   185,  1549,   189,   843,
-      49, 20160, 20180, 20638,   157,  1071, 19924, 19981,   660,   901,
-   20638,   203,   214,  1181,    50, 20638, 20638,   841,   918,  1072,
-     925,  1157,   623,  2025,   835,   649,  1419,  1610,   911,  1757,
-    1388,  1770,  1801,   915,  1948,  1957,   930,  2019,  2038,  2056,
-    2139,  1564,  2183,  2210,  2229,   835,   931,   938,  1164,   167,
-    1172,   952, 20638,  1143, 10507,   923,  1026,   761,   -43,  1056,
-   20638, 20638, 10698,   959,  1035,   408, 10889, 11080, 17478, 17608,
-    2140, 16064, 20775,   993, 20512, 11271,  1088, 11462, 16213, 16362,
-   16511, 16660, 15440, 15596, 15752, 15908, 11653, 11844, 12035, 12226,
-   12417, 12608,  1008,   198,   260,  1193,  1204,  1197,  1221,  1229,
-    1230,  1237,    93,  1109,  1252,  1271,   409, 20245, 19761, 18977,
-     977, 19052, 18735, 19113, 15542, 20021, 20029,   604,  1205,   614,
-     715,   343,   981,  1141,  1165,   835,   814,  1067,   926,  1016,
-    1286,  1180,  1210,  1217,  2247,  1223,  1233,  1245,  2270,  2328,
-    1137,  2330,  1085,    58,  1288,  2340,  2346,  2401,  1295,   835,
-     835,  1301,  1064, 12799,  1309, 20416, 17738, 20638,  2025, 20638,
-   20638, 12990,   878,   707,  1068, 13181, 20775, 16809, 20512,  1070,
-    1310, 13372, 13563,  1183,  1190,    95,  1277,   479,  1315,  1340,
-    1087,  1192,  1198,  1199,  1203,   -21,   321,   552,  1211,    49,
-    1296, 19188, 19268, 19329,  1208,  1560,   795,  1283,   385,   966,
-    1373,  1200,  1160,  1375,  1162,  1169,  1177,  2438,  2461,  1583,
-    2519,  2521,  1379,  1381,  1392,  1325,   952,   952, 20638,   -36,
-    1178,  1235,  1116, 13754, 20638, 17868, 15249,  1186,  1400, 17998,
-   18128,  1405,  1409, 18735,    49,  1260,  1305,  1307,    49, 19836,
-   18868, 20638,   998,  2531,  2537,  1406,  2592,  2629,  2652,  2710,
-    1421,  1241,  1300,  1282, 13945, 14136,  1423, 14327, 14518, 14709,
-    1291, 18258, 18388, 19404, 19484,  1854,   835,   103,  1242,  1428,
-   20638,   697,   952,  1249, 20638,  1440, 20638,  1751,  2712,  1299,
-     174,   755,   820,  1254,  1149, 14900,   835, 18774, 19545, 19620,
-   15301, 15091,   240,   181,   506,   -87,  1258,  1459,   235,   256,
-    1320,   278,   286, 19700,   181,  1259
+   21689,    45,    59,    94,   108,    59,   581,    19,   248,   299,
+      59,   301,    20,   720,     6,   396,    74,    74,    74,   423,
+      29,    44,    57,   205,    57,   227,    61,    73,    82,   304,
+     307,   345,   349,   421,   470,   479,   525,   -30,    -6,   424,
+   19235,   527,    56,   337,    88,   320,    28,    28,    59,   458,
+      59,   344,   362,   314,   -30,   363,   -27,   314,   314,   314,
+      59,    89,   375,   136,   497,   586,   599,   663,   732,  -505,
+   21657,   509,   431,   109,   129, 21027,   215,   161,   985,   777,
+     529,  1396,   654,   464,   112,    59,    59,   174,   -73,   605,
+     -13,   706,   687,    59,   543,   554,   757,   757,   757,   771,
+      59,    59,   185,   593,   396,   209,   615,   810, 21255,   660,
+     673,   676,   -30,   688,   692,   -30,   346, 19343,  1342,  1533,
+     374,   658,   867,  1724,   874,  1915,  2106,   357,  2297,   691,
+    -117,   631,   712,   244,  2488,  2679,  2870,  3061,  3252,  3443,
+    3634,  3825,   778,   786,   837,   782,   806,   476,   282, 21365,
+     849,   757,   944,   564,   733,    85,   103,   970,   899, 16347,
+   16645,   350,   118,   182,   118,   905,   909,   926,   517,   570,
+    1005, 21096, 21273, 21433, 21365,   915,   526,   597,  1176,     5,
+     283, 21365,   717, 21365, 20023,    39,  4016,  4207,  4398,  4589,
+    4780,  4971,  5162,  5353,  5544,  5735,  5926,  6117,  6308,  6499,
+    6690,  1295,  6881,   565,   681,   708,   965,  1549,   329,    59,
+    1010,    -3,   434,   890,   756,   826,   859,   864, 20239, 21501,
+     873, 21491,  7072, 21341, 17160,  7263,  7454,  7645,  7836, 17152,
+   17282, 17412,  8027, 17542,  8218,  8409,  8600,  8791,  8982,  9173,
+   17672,  9364,  9555,   943,   435,   791,   875,   968, 21365,   706,
+     977,  1046,   996,  1002,   895,   340,   281,    22,   292,  1000,
+     865,   910, 20923, 20908, 20651,   197,   540,   -30,   416,   426,
+      40,   346,   808,   201,    64,   553,   208,   411,   600,   997,
+    9746,   930,   901,  1028,  1011,  2028,   933,   979,   986,   941,
+     988,   994,  1008,    -3, 21118,    68,  1101,  1348, 21365, 21365,
+     866,   -16,  1025, 21519,  9937, 17802, 17932, 18062, 21365, 21491,
+   10128,   978,   -79, 21365, 21365, 21491, 10319, 21491,   -36,  1029,
+     -17, 21491, 21491, 21491, 21491, 21491, 21491, 21491, 21491, 21491,
+   21491, 21491, 21491, 21491, 21491, 21491,   810,    59,  1573,  1193,
+    1549,    79,   127,   314,   340,  1174,  1230,   458,  1238,  1055,
+    1116,   297,  1549,   311,  1005,    35, 19372, 20979, 21365, 19449,
+    1246, 20707, 20747,   218,   904, 21365,   175,   190,  1184,    39,
+   21365, 21365,    54,  1082,   189,  1099,   798,   817,  2028,   944,
+     757,  1582,  1613,  1067,  1677,  1391,  1758,  1760,  1072,  1770,
+    1804,  1074,  1831,  1850,  1951,  1960,  1486,  2022,  2041,  2059,
+     944,  1090,  1091,  1075,   434,  1094,   955, 21365,  1146, 10510,
+    1097,  1200,   927,   961,   907, 21365, 21365, 10701,  1101,   456,
+   10892,  1195, 11083, 11274, 18192, 18322,  2143, 16258, 21491,  1111,
+   21341, 11465,  1202, 11656, 16407, 16556, 16705, 16854, 15634, 15790,
+   15946, 16102, 11847, 12038, 12229, 12420, 12611, 12802,  1114,   380,
+     626,  1122,  1309,  1163,  1165,  1171,  1182,  1209,    24,  1403,
+    1214,  1221,    -3, 21013, 20553, 19750,  1115, 19825, 19526, 19905,
+   15736, 20812, 20852,   607,  1323,   617,   336,   847,   984,  1268,
+    1157,   944,   969,  1177,  1016,  1154,  1231,  1096,  1350,  1361,
+    2142,  1369,  1382,  1392,  2186,  2213,  1299,  2232,  1243,    59,
+    1233,  2250,  2273,  2331,  1235,   944,   944,  1240,  1211, 12993,
+    1255, 21187, 18452, 21365,  2028, 21365, 21365, 13184,   748,  1045,
+    1215, 13375, 21491, 17003, 21341,  1244,  1274, 13566, 13757,  1156,
+    1168,    93,  1418,   458,  1303,  1304,  1253,  1357,  1358,  1363,
+    1383,   551,   557,   721,  1384,    35,  1446, 19966, 20041, 20121,
+    1377,  1563,  1007,  1160,   700,  1107,  1328,  1175,  1273,  1343,
+    1315,  1320,  1321,  2333,  2343,  1567,  2349,  2404,  1354,  1367,
+    1371,  1222,   955,   955, 21365,   493,  1327,  1098,  1119, 13948,
+   21365, 18582, 15443,  1349,  1372, 18712, 18842,  1373,  1378, 19526,
+      35,  1444,  1452,  1457,    35, 20609, 19689, 21365,  1167,  2441,
+    2464,  1551,  2522,  2524,  2534,  2540,  1379,  1402,  1432,  1302,
+   14139, 14330,  1385, 14521, 14712, 14903,  1258, 18972, 19102, 20182,
+   20257,  1414,   944,   916,  1386,  1398, 21365,   699,   955,  1400,
+   21365,  1405, 21365,  1754,  2595,  1313,   836,   883,  1226,  1397,
+    1227, 15094,   944, 19614, 20337, 20398, 15495, 15285,   242,   408,
+     677,   235,  1406,  1415,   239,   241,  1463,   259,   480, 20473,
+     408,  1411
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -1152,45 +1155,46 @@ static const yytype_int8 yydefact[] =
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int16 yypgoto[] =
 {
-    -501,  -501,  -501,  1389,  -501,  1441,  -501,  1123,  -501,   330,
-    -501,  -501,  -501,  -501,  -326,   -79,   532,  1134,  1021,  -501,
-    -501,  -501,   683,  -501,  1080,  -501,  -341,  -501,  -501,  -501,
-    -501,   990,  -501,  -446,  -501,   -45,  -501,  -501,  -501,  -501,
-    -501,  -501,  -142,  -501,  -501,  1243,  -202,   -98,  -501,   821,
-     -49,   -53,  -501,  -501,   -85,  -278,  -501,  -501,  -501,   180,
-    -501,  -501,  -171,  -501,  1135,  -501,  -501,  -501,   354,  -297,
-    -501,  -292,  1293,  1311,  1158,  -147,  -188,  -501,  -501,  -501,
-    -501,  -501,  -501,  1207,  -501,  -501,  -501,    60,  -501,  -501,
-    -501,  -314,  -501,  -501,  -149,  -501,  -501,  -501,  -501,  -501,
-    -501,   -58,  -501,  -501,  1414,  -106,  -501,  -501,  1415,  -501,
-    -501,  -500,   935,  -501,  -501,  -501,    -2,  -501,  -501,   960,
-    1284,  -501,  1185,  -501,  1302,  -501,  1011,  -501,  -501,  -501,
-    1468,  -501,  -501,  -501,  -501,  -354
+    -505,  -505,  -505,  1528,  -505,  1593,  -505,  1265,  -505,   749,
+    -505,  -505,  -505,  -505,  -261,   -91,   738,  1276,  1162,  -505,
+    -505,  -505,   876,  -505,  1218,  -505,   -34,  -505,  -505,  -505,
+    -505,  1123,  -505,  -483,  -505,   -44,  -505,  -505,  -505,  -505,
+    -505,  -505,  -143,  -505,  -505,  1380,  -199,   -88,  -505,    14,
+     -52,   -29,  -505,  -505,   -35,  -278,  -505,  -505,  -505,  -136,
+    -505,  -505,  -171,  -505,  1261,  -505,  -505,  -505,   414,  -299,
+    -505,  -293,  1423,  1437,  1282,  -148,  -189,  -505,  -505,  -505,
+    -505,   339,   365,  -505,  1341,  -505,  -505,  -505,   268,  -505,
+    -505,  -505,  -256,  -505,  -505,  -134,  -505,  -505,  -505,  -505,
+     368,  -505,   -47,  -505,  -505,  1516,   -90,  -505,  -505,  1520,
+    -505,  -505,  -504,  1058,  -505,  -505,  -505,    -2,  -505,  -505,
+    1068,  1395,  -505,  1294,  -505,  1389,  -505,  1113,  -505,  -505,
+    -505,  1564,  -505,  -505,  -505,  -505,  -358
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int16 yydefgoto[] =
 {
-       0,    19,    20,    21,    22,    73,   259,   260,    23,    66,
-      24,   143,    25,    26,    89,   162,   255,   344,   345,    27,
-      28,    29,    84,   288,   289,   290,   394,   488,   484,   494,
-     495,   496,   291,   497,    30,    93,    31,   251,   252,    32,
+       0,    19,    20,    21,    22,    73,   260,   261,    23,    66,
+      24,   143,    25,    26,    89,   162,   256,   349,   350,    27,
+      28,    29,    84,   289,   290,   291,   399,   494,   490,   500,
+     501,   502,   292,   503,    30,    93,    31,   252,   253,    32,
       33,    34,   153,    35,   155,   156,    36,   175,   176,   177,
-      77,   112,   113,   180,    78,   174,   261,   351,   352,   150,
-     545,   627,   116,   267,   268,   363,   469,   108,   185,   262,
-     129,   130,   131,   132,   263,   264,   225,   226,   227,   228,
-     229,   230,   231,   300,   232,   233,   234,   503,   603,   633,
-     634,   646,   235,   236,   198,   199,   200,   237,   238,   239,
-     240,   241,   134,   135,   136,   137,   138,   139,   140,   141,
-     457,   458,   459,   460,   461,    51,   462,   146,   541,   542,
-     543,   357,   275,   276,   277,   371,   478,    37,    38,    63,
-      64,   463,   538,   638,    71,   244
+      77,   112,   113,   180,    78,   174,   262,   356,   357,   150,
+     551,   633,   116,   268,   269,   368,   475,   108,   185,   263,
+     129,   130,   131,   132,   264,   265,   225,   226,   227,   228,
+     229,   230,   231,   232,   301,   233,   234,   235,   509,   609,
+     639,   640,   652,   236,   237,   198,   199,   200,   238,   239,
+     240,   241,   242,   134,   135,   136,   137,   138,   139,   140,
+     141,   463,   464,   465,   466,   467,    51,   468,   146,   547,
+     548,   549,   362,   276,   277,   278,   376,   484,    37,    38,
+      63,    64,   469,   544,   644,    71,   245
 };
 
 /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
@@ -1198,1020 +1202,963 @@ static const yytype_int16 yydefgoto[] =
    number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int16 yytable[] =
 {
-      41,   172,   224,    44,   265,    95,   213,   415,    52,   283,
-      56,   270,    99,   100,   101,   402,   450,   182,   163,   164,
-     480,    60,   308,   133,    40,   115,   403,   178,  -118,  -256,
-     178,   303,   479,   305,   269,  -148,   271,   273,   309,   589,
-     -21,   498,    39,   445,  -355,   145,    87,  -154,    90,   561,
-    -322,   -19,    40,    -3,   279,   454,    -8,   585,   102,   119,
-     120,    40,    61,    48,  -124,    42,   509,    49,   -61,    45,
-      -9,   299,   242,   308,    97,   425,   307,  -166,  -347,    46,
-     308,    -7,  -148,   147,   148,    50,  -321,    43,   615,   309,
-     400,   158,   426,   -40,   -54,   -39,   309,   152,   166,   167,
-     336,   417,  -154,  -152,   246,   504,   -52,  -123,  -256,    -6,
-      47,   -30,  -152,    98,   303,    -5,   109,  -120,   149,  -154,
-     -53,   548,   420,   114,   421,   266,    53,   520,   427,   428,
-     429,   430,   431,   432,   433,   434,   435,   436,   437,   438,
-     439,   440,   441,   133,    -4,   563,   564,   406,  -152,   133,
-     407,   408,   110,    72,   626,   619,   -51,  -318,  -152,   607,
-    -154,   418,   419,  -322,   -19,   149,  -318,   570,   359,   274,
-     284,   -50,  -121,  -312,   306,  -152,   -40,  -124,   -39,  -152,
-    -249,   178,    75,  -318,  -152,   -36,  -356,   642,   111,   -20,
-    -166,  -249,    83,   308,  -160,  -148,  -166,  -160,   -35,  -321,
-    -120,   582,  -318,  -159,   124,   274,  -159,   281,  -318,   309,
-     404,   -33,  -318,   269,  -158,    54,  -152,  -158,   471,   472,
-    -123,   578,  -152,  -318,   -30,   442,  -318,   568,  -318,  -318,
-    -120,   -60,  -148,  -318,   517,  -318,  -318,   -21,  -318,  -318,
-    -318,    70,  -154,   456,  -154,  -322,   405,  -322,   -19,  -160,
-      -3,  -318,  -318,    -8,   530,  -121,  -318,  -318,  -159,  -124,
-    -357,  -124,   625,   512,   513,    65,  -160,    -9,  -118,  -158,
-    -318,   606,  -166,  -118,  -166,  -159,  -318,   133,    -7,  -148,
-     248,  -321,   647,  -321,   361,  -121,  -158,    62,  -318,   133,
-     -40,   -54,   -39,   446,   617,  -336,   481,   -18,  -152,  -356,
-    -152,   353,  -123,   -52,  -123,  -356,    -6,  -160,   -30,  -109,
-     308,   362,    -5,  -160,  -120,  -120,  -159,   -53,    54,  -318,
-    -318,  -318,  -159,   629,   -33,    69,   309,  -158,   576,   650,
-     443,   -38,  -122,  -158,    96,   249,   285,   286,   287,  -249,
-     655,    -4,  -249,  -169,  -356,  -356,   644,    67,    68,   645,
-    -318,  -255,  -318,   -51,  -318,  -318,  -160,  -160,  -160,   -60,
-     569,  -337,   571,   572,   514,  -159,  -159,  -159,   -50,  -121,
-    -121,  -292,  -253,  -357,  -292,   519,  -158,  -158,  -158,  -357,
-    -292,  -356,   -36,  -356,  -356,  -333,   -20,  -173,  -292,  -160,
-     207,  -160,  -160,  -148,  -254,   -35,    82,  -292,  -159,   586,
-    -159,  -159,  -252,  -136,   152,    81,   648,   649,   -33,  -158,
-     -18,  -158,  -158,  -153,   -38,  -122,  -292,   599,  -357,  -357,
-    -350,  -175,  -292,  -155,  -175,  -292,  -292,   610,   -41,   -38,
-    -255,  -336,   621,    92,  -339,   104,   346,  -292,   -41,    79,
-    -292,    75,  -292,  -292,   -38,  -122,   245,  -292,   308,  -292,
-    -292,  -253,  -292,  -292,  -292,  -357,  -169,  -357,  -357,   308,
-    -136,  -292,  -169,  -292,   309,  -292,  -292,  -335,  -153,   577,
-    -292,  -292,  -292,  -254,   -61,   309,   149,   637,  -155,   640,
-    -292,  -252,    88,  -292,  -292,  -153,    91,  -292,  -292,  -292,
-    -292,   559,  -292,  -334,   -18,  -155,  -292,  -337,  -333,  -292,
-    -292,  -337,  -292,  -292,  -333,  -308,  -148,  -292,  -292,   186,
-     187,   188,   189,   190,   191,   192,   193,   194,   195,   196,
-     197,   -41,    15,  -127,  -132,   -38,  -153,   103,   -38,  -122,
-    -122,   464,  -153,  -292,  -292,  -292,  -155,  -170,  -169,  -136,
-    -169,   253,  -155,   476,   477,    -2,  -292,  -292,  -292,  -292,
-    -292,   253,  -338,  -292,  -292,   106,  -292,  -292,  -292,  -292,
-    -292,  -292,  -297,  -292,  -292,  -297,  -292,   142,  -292,  -292,
-    -339,  -297,   -11,   422,  -339,  -153,  -153,  -153,  -127,  -297,
-    -333,   117,  -333,   334,   -16,  -155,  -155,  -155,  -297,   144,
-    -148,   151,   183,  -170,  -126,  -127,   -17,  -323,    83,  -127,
-     423,   515,   -61,  -335,  -156,    57,   353,  -297,  -153,   184,
-    -153,   360,   367,  -297,  -157,    58,  -297,  -297,  -155,   358,
-    -155,  -155,   254,  -324,   364,   -41,   604,   605,  -297,  -334,
-     587,  -297,   254,  -297,  -297,   -41,  -127,  -132,  -297,   154,
-    -297,  -297,  -127,  -297,  -297,  -297,    59,   157,   183,  -126,
-    -170,  -345,  -297,   161,  -297,   159,  -297,  -297,   210,  -156,
-    -125,  -297,  -297,  -297,   160,   184,  -126,  -138,   165,  -157,
-    -126,  -297,   651,   652,  -297,  -297,  -156,  -134,  -297,  -297,
-    -297,  -297,   635,  -297,   368,   -11,  -157,  -297,  -338,   211,
-    -297,  -297,  -338,  -297,  -297,   256,   257,   -16,  -297,  -297,
-     186,   187,   188,   189,   190,   191,  -170,  -126,  -154,   -17,
-    -323,   369,  -170,  -126,    54,  -133,  -323,  -156,  -127,  -132,
-    -127,  -132,   370,  -156,  -297,  -297,  -297,  -157,  -137,    85,
-      86,   171,  -170,  -157,  -170,   170,  -324,  -297,  -297,  -297,
-    -297,  -297,  -324,  -135,  -297,  -297,   181,  -297,  -297,  -297,
-    -297,  -297,  -297,  -276,  -297,  -297,  -276,  -297,   212,  -297,
-    -297,  -250,  -276,  -154,   201,   208,  -156,  -156,  -156,   -11,
-    -276,   -37,  -250,  -125,   202,  -165,  -157,  -157,  -157,  -276,
-    -154,   -16,   -13,   -14,   114,  -137,   -12,   -15,  -170,  -126,
-    -170,  -126,  -323,   -17,  -323,  -162,   340,   206,  -276,  -156,
-    -135,  -156,  -156,  -138,  -276,   -10,   203,  -276,  -276,  -157,
-    -311,  -157,  -157,  -134,  -332,   209,   574,   341,  -324,  -276,
-    -324,  -154,  -276,   308,  -276,  -276,  -251,  -154,  -133,  -276,
-     366,  -276,  -276,    55,  -276,  -276,  -276,  -251,   243,   309,
-    -108,  -327,   342,  -276,   247,  -276,   258,  -276,  -276,  -179,
-    -162,  -114,  -276,  -276,  -276,  -125,   250,  -125,    76,   630,
-     631,   632,  -276,   -29,  -137,  -276,  -276,  -162,  -139,  -276,
-    -276,  -276,  -276,   -37,  -276,    94,   -37,   308,  -276,  -135,
-     282,  -276,  -276,   292,  -276,  -276,   508,   295,  -165,  -276,
-    -276,   308,  -248,   309,  -165,   -13,   -14,   343,   296,   -12,
-     -15,  -129,   -26,  -154,   297,  -154,   -28,   309,  -162,   -27,
-    -133,   332,  -133,  -168,  -162,  -276,  -276,  -276,   -10,  -179,
-    -250,   304,  -179,  -250,   168,   179,  -325,  -332,  -276,  -276,
-    -276,  -276,  -276,  -332,  -177,  -276,  -276,  -177,  -276,  -276,
-    -276,  -276,  -276,  -276,   335,  -276,  -276,   293,  -276,   294,
-    -276,  -276,  -243,   338,  -327,  -243,  -129,  -162,  -162,  -162,
-    -327,  -243,  -106,   339,  -114,   -32,  -331,   373,   365,  -243,
-    -165,  -327,  -165,  -129,   -31,   410,   -29,  -129,  -243,   -13,
-     -14,  -167,  -154,   -12,   -15,  -251,  -180,   375,  -251,  -113,
-    -162,   109,  -162,  -162,   308,   411,   573,  -243,  -326,  -327,
-    -327,   412,   -10,  -243,  -139,   374,  -243,  -243,   396,  -332,
-     309,  -332,   395,  -107,  -129,   -26,   397,    75,  -243,   -28,
-    -129,  -243,   -27,  -243,  -243,   413,  -168,   110,  -243,   502,
-    -243,  -243,  -168,  -243,  -243,  -243,  -327,  -154,  -327,  -325,
-     416,   424,  -243,  -104,  -243,  -325,  -243,  -243,  -114,  -181,
-     444,  -243,  -243,  -243,  -154,   448,  -180,   449,   114,  -180,
-     -29,  -243,   298,   111,  -243,  -243,   308,   451,  -243,  -243,
-    -243,  -243,  -329,  -243,   466,  -106,  -105,  -243,   -32,  -331,
-    -243,  -243,   309,  -243,  -243,  -331,   474,   -31,  -243,  -243,
-     473,   -34,  -116,  -119,  -167,  -154,  -129,   308,  -129,   -26,
-    -167,  -154,  -113,   -28,  -110,   482,   -27,  -111,  -168,   485,
-    -168,  -326,   340,   309,  -243,  -243,  -243,  -326,   506,  -181,
-     507,  -325,  -181,  -325,   486,   499,  -107,  -243,  -243,  -243,
-    -243,  -243,   500,   526,  -243,  -243,   422,  -243,  -243,  -243,
-    -243,  -243,  -243,  -277,  -243,  -243,  -277,  -243,   510,  -243,
-    -243,   333,  -277,   -57,   334,   642,  -104,  -333,   527,  -106,
-    -277,  -331,   -32,  -331,   -56,  -330,   643,   348,   411,  -277,
-     349,   -31,   -59,  -128,   511,   539,  -167,  -154,  -167,  -154,
-     -55,  -161,   109,  -115,   468,  -329,  -113,   518,  -277,  -105,
-    -112,  -329,   521,  -326,  -277,  -326,   -22,  -277,  -277,   -22,
-     -58,   522,  -329,   547,   -34,  -116,  -119,   524,   546,  -277,
-    -107,   550,  -277,   343,  -277,  -277,   552,  -110,   110,  -277,
-    -111,  -277,  -277,   553,  -277,  -277,  -277,   549,  -128,   554,
-    -329,  -329,   308,  -277,   609,  -277,  -161,  -277,  -277,   555,
-    -104,   557,  -277,  -277,  -277,  -128,   347,   -24,   309,  -128,
-     -24,   556,  -277,  -161,   111,  -277,  -277,   558,   565,  -277,
-    -277,  -277,  -277,   575,  -277,   579,   -57,  -329,  -277,  -329,
-    -333,  -277,  -277,  -105,  -277,  -277,  -333,   -56,  -330,  -277,
-    -277,   581,   583,  -328,  -330,   -59,  -128,   475,   -34,  -116,
-    -119,   584,  -128,   -55,  -161,  -330,  -115,  -351,  -343,   590,
-    -161,  -110,  -349,  -112,  -111,  -277,  -277,  -277,  -176,   398,
-     588,  -176,   399,   -58,   644,   476,   477,   645,  -277,  -277,
-    -277,  -277,  -277,  -330,  -330,  -277,  -277,  -227,  -277,  -277,
-    -277,  -277,  -277,  -277,   591,  -277,  -277,   505,  -277,  -287,
-    -277,  -277,  -287,  -161,  -161,  -161,   -62,  -227,  -287,   -62,
-     -57,   308,  -333,  -227,  -333,   593,  -287,   596,   114,  -346,
-    -330,   -56,  -330,   -64,   597,  -287,   -64,   309,  -128,   -59,
-    -128,   -65,   598,   608,   -65,  -244,  -161,   -55,  -161,  -161,
-    -115,   611,   452,  -228,  -287,   453,   -47,  -112,   523,   -47,
-    -287,   207,   525,  -287,  -287,   453,  -328,   -58,   118,   119,
-     120,  -245,  -328,  -228,  -348,  -287,  -344,   308,  -287,  -228,
-    -287,  -287,   618,  -328,   493,  -287,   -48,  -287,  -287,   -48,
-    -287,  -287,  -287,   309,   -45,   -43,   620,   -45,   -43,  -287,
-     602,  -287,   -49,  -287,  -287,   -49,   654,   628,  -287,  -287,
-    -287,  -328,  -328,   636,  -154,  -154,  -154,   529,  -287,   641,
-     207,  -287,  -287,  -246,  -247,  -287,  -287,  -287,  -287,   105,
-    -287,  -244,  -244,  -244,  -287,    74,   -23,  -287,  -287,   -23,
-    -287,  -287,   455,   447,   528,  -287,  -287,  -154,  -328,   501,
-    -328,   551,   122,   -66,   334,   560,   -66,  -245,  -245,  -245,
-     562,   337,   -89,   334,  -244,   467,   -63,   353,   123,   -63,
-     280,  -287,  -287,  -287,   566,   580,   409,   353,   353,   -89,
-     -46,   465,   278,   -46,  -287,  -287,  -287,  -287,  -287,   614,
-    -245,  -287,  -287,   -83,  -287,  -287,  -287,  -287,  -287,  -287,
-    -290,  -287,  -287,  -290,  -287,   -25,  -287,  -287,   -25,  -290,
-     -83,   204,   205,   613,   124,   125,   126,  -290,   356,   470,
-     118,   119,   120,   118,   119,   120,  -290,   -89,   -89,   592,
-    -140,   -89,   186,   187,   188,   189,   190,   191,  -178,  -140,
-     594,  -178,   169,   595,  -101,  -290,   600,  -101,   372,   334,
-     127,  -290,   483,   -89,  -290,  -290,   -89,   601,   -83,   -83,
-     334,     0,   -83,   128,   121,   612,  -290,   121,   353,  -290,
-     -44,  -290,  -290,   -44,   -42,  -140,  -290,   -42,  -290,  -290,
-       0,  -290,  -290,  -290,   -83,  -140,  -100,   -83,   622,  -100,
-    -290,   353,  -290,  -102,  -290,  -290,  -102,     0,  -117,  -290,
-    -290,  -290,  -140,  -117,   122,   639,  -140,   122,   334,  -290,
-       0,  -140,  -290,  -290,     0,     0,  -290,  -290,  -290,  -290,
-     123,  -290,     0,   123,   653,  -290,     0,   334,  -290,  -290,
-       0,  -290,  -290,     0,     0,     0,  -290,  -290,   -86,     0,
-       0,     0,     0,  -140,  -117,     0,     0,     0,     0,  -140,
-       0,     0,     0,     0,     0,   -86,     0,  -118,     0,     0,
-       0,  -117,  -290,  -290,  -290,  -117,   124,   125,   126,   124,
-     125,   126,     0,     0,  -118,  -290,  -290,  -290,  -290,  -290,
-       0,     0,  -290,  -290,   -77,  -290,  -290,  -290,  -290,  -290,
-    -290,  -293,  -290,  -290,  -293,  -290,     0,  -290,  -290,     0,
-    -293,   -77,   127,   -86,   -86,   127,     0,   -86,  -293,  -117,
-    -117,  -174,     0,  -117,     0,   128,     0,  -293,   128,     0,
-       0,  -149,  -118,  -118,     0,  -140,  -118,  -140,   487,   -86,
-    -149,     0,   -86,     0,     0,  -117,  -293,     0,  -117,     0,
-       0,     0,  -293,     0,     0,  -293,  -293,   152,  -118,   -77,
-     -77,  -118,     0,   -77,     0,     0,     0,  -293,     0,     0,
-    -293,     0,  -293,  -293,     0,     0,  -149,  -293,     0,  -293,
-    -293,     0,  -293,  -293,  -293,   -77,  -149,     0,   -77,     0,
-       0,  -293,     0,  -293,     0,  -293,  -293,     0,     0,     0,
-    -293,  -293,  -293,  -149,     0,     0,     0,  -149,     0,     0,
-    -293,     0,  -149,  -293,  -293,     0,     0,  -293,  -293,  -293,
-    -293,     0,  -293,     0,     0,     0,  -293,     0,     0,  -293,
-    -293,     0,  -293,  -293,     0,     0,     0,  -293,  -293,     0,
-       0,   -79,     0,     0,  -149,     0,     0,     0,     0,     0,
-    -149,     0,     0,     0,   -80,     0,     0,     0,   -79,     0,
-     531,     0,     0,  -293,  -293,  -293,     0,     0,     0,     0,
-       0,   -80,     0,     0,     0,     0,  -293,  -293,  -293,  -293,
-    -293,     0,     0,  -293,  -293,   -67,  -293,  -293,  -293,  -293,
-    -293,  -293,  -288,  -293,  -293,  -288,  -293,     0,  -293,  -293,
-     532,  -288,   -67,     0,     0,   533,   -79,   -79,     0,  -288,
-     -79,     0,   534,   535,     0,     0,   623,     0,  -288,   -80,
-     -80,     0,     0,   -80,     0,     0,  -149,     0,  -149,   536,
-       0,     0,   -79,  -352,   537,   -79,     0,  -288,     0,     0,
-       0,     0,     0,  -288,     0,   -80,  -288,  -288,   -80,     0,
-     -67,   -67,     0,     0,   -67,     0,     0,     0,  -288,     0,
-       0,  -288,     0,  -288,  -288,   624,     0,     0,  -288,     0,
-    -288,  -288,     0,  -288,  -288,  -288,   -67,     0,     0,   -67,
-       0,     0,  -288,     0,  -288,     0,  -288,  -288,     0,     0,
-       0,  -288,  -288,  -288,     0,     0,     0,     0,     0,     0,
-       0,  -288,     0,     0,  -288,  -288,     0,     0,  -288,  -288,
-    -288,  -288,     0,  -288,     0,     0,   376,  -288,     0,     0,
-    -288,  -288,     0,  -288,  -288,     0,     0,     0,  -288,  -288,
-     377,     0,   -74,     0,   378,   379,   380,   381,   382,     0,
-     383,   -75,     0,     0,     0,     0,     0,     0,   384,   -74,
-       0,     0,     0,     0,  -288,  -288,  -288,     0,   -75,     0,
-       0,     0,     0,     0,     0,     0,     0,  -288,  -288,  -288,
-    -288,  -288,     0,   385,  -288,  -288,     0,  -288,  -288,  -288,
-    -288,  -288,  -288,  -289,  -288,  -288,  -289,  -288,     0,  -288,
-    -288,   386,  -289,   387,   388,     0,     0,   -74,   -74,     0,
-    -289,   -74,     0,   -71,     0,     0,   -75,   -75,   389,  -289,
-     -75,     0,     0,   390,     0,   391,     0,     0,     0,     0,
-     -71,     0,   -72,   -74,     0,   392,   -74,     0,  -289,     0,
-       0,     0,   -75,     0,  -289,   -75,     0,  -289,  -289,   -72,
-     -78,     0,     0,     0,     0,     0,     0,     0,     0,  -289,
-       0,     0,  -289,     0,  -289,  -289,     0,   -78,   393,  -289,
-       0,  -289,  -289,     0,  -289,  -289,  -289,     0,   -71,   -71,
-       0,     0,   -71,  -289,   311,  -289,     0,  -289,  -289,     0,
-       0,     0,  -289,  -289,  -289,     0,     0,   -72,   -72,     0,
-       0,   -72,  -289,     0,   -71,  -289,  -289,   -71,     0,  -289,
-    -289,  -289,  -289,     0,  -289,   -78,   -78,     0,  -289,   -78,
-       0,  -289,  -289,   -72,  -289,  -289,   -72,     0,     0,  -289,
-    -289,   312,     0,   -81,     0,     0,     0,     0,     0,     0,
-       0,   -78,     0,     0,   -78,     0,   516,     0,     0,     0,
-     -81,   414,     0,     0,     0,  -289,  -289,  -289,     0,   315,
-       0,     0,     0,     0,     0,     0,   316,   317,  -289,  -289,
-    -289,  -289,  -289,     0,     0,  -289,  -289,   -76,  -289,  -289,
-    -289,  -289,  -289,  -289,  -298,  -289,  -289,  -298,  -289,     0,
-    -289,  -289,     0,  -298,   -76,     0,     0,     0,   -81,   -81,
-       0,  -298,   -81,     0,   -68,   318,   319,   320,   321,   322,
-    -298,     0,   323,   324,     0,   325,   326,   327,   328,   329,
-     330,   -68,   331,   489,   -81,     0,     0,   -81,     0,  -298,
-       0,     0,     0,     0,     0,  -298,     0,     0,  -298,  -298,
-     490,   -73,   -76,   -76,     0,     0,   -76,     0,     0,     0,
-    -298,     0,     0,  -298,     0,  -298,  -298,     0,   -73,     0,
-    -298,     0,  -298,  -298,   -82,  -298,  -298,  -298,   -76,   -68,
-     -68,   -76,     0,   -68,  -298,     0,  -298,     0,  -298,  -298,
-       0,   -82,     0,  -298,  -298,  -298,     0,     0,   491,   492,
-       0,     0,   493,  -298,     0,   -68,  -298,  -298,   -68,     0,
-    -298,  -298,  -298,  -298,     0,  -298,   -73,   -73,     0,  -298,
-     -73,     0,  -298,  -298,   -91,  -298,  -298,   -91,     0,     0,
-    -298,  -298,   -98,     0,   -97,     0,     0,     0,     0,   -82,
-     -82,     0,   -73,   -82,   489,   -73,     0,     0,     0,   -98,
-     -92,   -97,     0,     0,     0,     0,  -298,  -298,  -298,     0,
-       0,   490,     0,     0,     0,   -82,     0,   -92,   -82,  -298,
-    -298,  -298,  -298,  -298,     0,     0,  -298,  -298,     0,  -298,
-    -298,  -298,  -298,  -298,  -298,  -280,  -298,  -298,  -280,  -298,
-       0,  -298,  -298,     0,  -280,     0,     0,   -98,   -98,   -97,
-     -97,   -98,  -280,   -97,     0,   -94,     0,     0,     0,   491,
-     492,  -280,     0,   493,     0,   -92,   -92,     0,     0,   -92,
-       0,     0,   -94,   -98,     0,   -97,   -98,     0,   -97,     0,
-    -280,     0,     0,     0,     0,   -90,  -280,     0,   -90,  -280,
-    -280,   -92,   -99,     0,   -92,     0,     0,     0,     0,     0,
-       0,  -280,     0,     0,  -280,     0,  -280,  -280,     0,   -99,
-       0,  -280,     0,  -280,  -280,   -96,  -280,  -280,  -280,     0,
-     -94,   -94,     0,     0,   -94,  -280,     0,  -280,     0,  -280,
-    -280,     0,   -96,     0,  -280,  -280,  -280,     0,     0,     0,
-       0,     0,     0,     0,  -280,     0,   -94,  -280,  -280,   -94,
-       0,  -280,  -280,  -280,  -280,     0,  -280,   -99,   -99,     0,
-    -280,   -99,     0,  -280,  -280,     0,  -280,  -280,     0,     0,
-       0,  -280,  -280,   -93,     0,   -95,     0,     0,     0,     0,
-     -96,   -96,     0,   -99,   -96,   -70,   -99,     0,     0,     0,
-     -93,   -88,   -95,     0,     0,     0,     0,  -280,  -280,  -280,
-       0,     0,   -70,     0,     0,     0,   -96,     0,   -88,   -96,
-    -280,  -280,  -280,  -280,  -280,     0,     0,  -280,  -280,     0,
-    -280,  -280,  -280,  -280,  -280,  -280,  -281,  -280,  -280,  -281,
-    -280,     0,  -280,  -280,     0,  -281,     0,     0,   -93,   -93,
-     -95,   -95,   -93,  -281,   -95,     0,   -84,     0,     0,     0,
-     -70,   -70,  -281,     0,   -70,     0,   -88,   -88,     0,     0,
-     -88,     0,     0,   -84,   -93,     0,   -95,   -93,     0,   -95,
-       0,  -281,     0,     0,     0,     0,   -70,  -281,     0,   -70,
-    -281,  -281,   -88,   -69,     0,   -88,     0,     0,     0,     0,
-       0,     0,  -281,     0,     0,  -281,     0,  -281,  -281,     0,
-     -69,     0,  -281,     0,  -281,  -281,   -85,  -281,  -281,  -281,
-       0,   -84,   -84,     0,     0,   -84,  -281,     0,  -281,     0,
-    -281,  -281,     0,   -85,     0,  -281,  -281,  -281,     0,     0,
-       0,     0,     0,     0,     0,  -281,     0,   -84,  -281,  -281,
-     -84,     0,  -281,  -281,  -281,  -281,     0,  -281,   -69,   -69,
-       0,  -281,   -69,     0,  -281,  -281,     0,  -281,  -281,     0,
-       0,     0,  -281,  -281,  -103,     0,   -87,     0,     0,     0,
-       0,   -85,   -85,     0,   -69,   -85,     0,   -69,     0,     0,
-       0,  -103,     0,   -87,     0,     0,     0,     0,  -281,  -281,
-    -281,     0,     0,     0,     0,     0,     0,   -85,     0,     0,
-     -85,  -281,  -281,  -281,  -281,  -281,     0,     0,  -281,  -281,
-       0,  -281,  -281,  -281,  -281,  -281,  -281,  -282,  -281,  -281,
-    -282,  -281,     0,  -281,  -281,     0,  -282,     0,     0,  -103,
-    -103,   -87,   -87,  -103,  -282,   -87,     0,     0,     0,     0,
-       0,     0,     0,  -282,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -103,     0,   -87,  -103,     0,
-     -87,     0,  -282,     0,     0,     0,     0,     0,  -282,     0,
-       0,  -282,  -282,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -282,     0,     0,  -282,     0,  -282,  -282,
-       0,     0,     0,  -282,     0,  -282,  -282,     0,  -282,  -282,
-    -282,     0,     0,     0,     0,     0,     0,  -282,     0,  -282,
-       0,  -282,  -282,     0,     0,     0,  -282,  -282,  -282,     0,
-       0,     0,     0,     0,     0,     0,  -282,     0,     0,  -282,
-    -282,     0,     0,  -282,  -282,  -282,  -282,     0,  -282,     0,
-       0,     0,  -282,     0,     0,  -282,  -282,     0,  -282,  -282,
-       0,     0,     0,  -282,  -282,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -282,
-    -282,  -282,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -282,  -282,  -282,  -282,  -282,     0,     0,  -282,
-    -282,     0,  -282,  -282,  -282,  -282,  -282,  -282,  -291,  -282,
-    -282,  -291,  -282,     0,  -282,  -282,     0,  -291,     0,     0,
-       0,     0,     0,     0,     0,  -291,     0,     0,     0,     0,
-       0,     0,     0,     0,  -291,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -291,     0,     0,     0,     0,     0,  -291,
-       0,     0,  -291,  -291,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -291,     0,     0,  -291,     0,  -291,
-    -291,     0,     0,     0,  -291,     0,  -291,  -291,     0,  -291,
-    -291,  -291,     0,     0,     0,     0,     0,     0,  -291,     0,
-    -291,     0,  -291,  -291,     0,     0,     0,  -291,  -291,  -291,
-       0,     0,     0,     0,     0,     0,     0,  -291,     0,     0,
-    -291,  -291,     0,     0,  -291,  -291,  -291,  -291,     0,  -291,
-       0,     0,     0,  -291,     0,     0,  -291,  -291,     0,  -291,
-    -291,     0,     0,     0,  -291,  -291,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -291,  -291,  -291,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -291,  -291,  -291,  -291,  -291,     0,     0,
-    -291,  -291,     0,  -291,  -291,  -291,  -291,  -291,  -291,  -283,
-    -291,  -291,  -283,  -291,     0,  -291,  -291,     0,  -283,     0,
-       0,     0,     0,     0,     0,     0,  -283,     0,     0,     0,
-       0,     0,     0,     0,     0,  -283,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -283,     0,     0,     0,     0,     0,
-    -283,     0,     0,  -283,  -283,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -283,     0,     0,  -283,     0,
-    -283,  -283,     0,     0,     0,  -283,     0,  -283,  -283,     0,
-    -283,  -283,  -283,     0,     0,     0,     0,     0,     0,  -283,
-       0,  -283,     0,  -283,  -283,     0,     0,     0,  -283,  -283,
-    -283,     0,     0,     0,     0,     0,     0,     0,  -283,     0,
-       0,  -283,  -283,     0,     0,  -283,  -283,  -283,  -283,     0,
-    -283,     0,     0,     0,  -283,     0,     0,  -283,  -283,     0,
-    -283,  -283,     0,     0,     0,  -283,  -283,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -283,  -283,  -283,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -283,  -283,  -283,  -283,  -283,     0,
-       0,  -283,  -283,     0,  -283,  -283,  -283,  -283,  -283,  -283,
-    -284,  -283,  -283,  -284,  -283,     0,  -283,  -283,     0,  -284,
-       0,     0,     0,     0,     0,     0,     0,  -284,     0,     0,
-       0,     0,     0,     0,     0,     0,  -284,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -284,     0,     0,     0,     0,
-       0,  -284,     0,     0,  -284,  -284,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -284,     0,     0,  -284,
-       0,  -284,  -284,     0,     0,     0,  -284,     0,  -284,  -284,
-       0,  -284,  -284,  -284,     0,     0,     0,     0,     0,     0,
-    -284,     0,  -284,     0,  -284,  -284,     0,     0,     0,  -284,
-    -284,  -284,     0,     0,     0,     0,     0,     0,     0,  -284,
-       0,     0,  -284,  -284,     0,     0,  -284,  -284,  -284,  -284,
-       0,  -284,     0,     0,     0,  -284,     0,     0,  -284,  -284,
-       0,  -284,  -284,     0,     0,     0,  -284,  -284,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -284,  -284,  -284,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -284,  -284,  -284,  -284,  -284,
-       0,     0,  -284,  -284,     0,  -284,  -284,  -284,  -284,  -284,
-    -284,  -285,  -284,  -284,  -285,  -284,     0,  -284,  -284,     0,
+      41,   224,    95,    44,   266,   213,   163,   164,    52,   419,
+      56,   271,   284,    99,   100,   101,   407,   172,   567,   250,
+     -37,   486,  -148,    40,   -40,    60,    55,   182,    75,  -359,
+     304,   -61,   310,   270,   133,   272,   274,   313,    40,  -326,
+    -160,   595,   504,  -160,    -3,  -118,    87,   451,    90,   115,
+    -118,    76,  -338,   314,  -331,  -339,   -33,   -21,   102,   460,
+     243,    -8,    40,  -138,  -165,   428,    61,    97,    94,   280,
+     300,   408,    39,    -9,   -30,   312,   415,   178,  -173,  -122,
+     178,   207,    -7,   147,   148,  -148,   456,   431,   -54,   -52,
+     621,   158,   429,   -39,   405,  -160,   416,    42,   166,   167,
+     341,   247,   417,  -120,   432,   149,    98,   -40,   510,    -6,
+      15,    43,  -160,    48,   304,   145,   423,   168,   -41,   371,
+     420,   351,   -37,   554,   625,   -37,   426,  -121,   427,    -5,
+     366,   526,   433,   434,   435,   436,   437,   438,   439,   440,
+     441,   442,   443,   444,   445,   446,   447,   569,   570,   267,
+     412,   413,  -326,  -160,   133,    83,   313,   367,   275,  -160,
+     133,  -124,  -122,   411,    54,   424,   425,  -331,   149,   -33,
+      72,   311,   314,  -331,  -148,  -159,   -39,  -165,  -159,   364,
+     313,   152,   -41,  -165,  -331,   -53,  -120,   -30,  -338,  -333,
+    -158,  -339,  -122,  -158,  -340,   313,   314,  -324,  -148,  -138,
+     359,  -168,  -160,  -160,  -160,   -19,  -324,   282,  -132,    -4,
+    -121,   314,  -331,  -331,    54,  -123,  -120,   270,  -125,  -148,
+     470,   -40,   477,   478,   109,   584,    70,   -18,    65,   462,
+    -159,   254,   178,   574,  -326,  -160,  -326,  -160,  -160,   523,
+    -121,    -3,  -324,  -316,   410,  -158,   448,  -159,  -324,  -331,
+      81,  -331,  -324,   -33,   -21,   409,   370,   149,    -8,  -165,
+     110,  -165,  -158,   536,   631,   -41,  -324,   518,   519,  -324,
+      -9,   -30,   588,  -324,  -124,   612,  -122,  -122,  -324,    -7,
+    -324,   -51,  -148,   249,   653,   -54,   -52,  -148,  -159,   487,
+     -39,  -324,   -50,   133,  -159,   254,   111,   -36,   623,   452,
+    -120,  -120,  -333,  -158,   -11,   133,    -6,   -16,  -333,  -158,
+    -324,   -20,   255,   313,  -168,   -41,  -324,  -109,   -19,  -333,
+    -168,  -132,   360,   -61,  -121,  -121,    -5,   635,  -123,   314,
+    -340,  -125,   -60,   582,   104,   449,  -133,  -159,  -159,  -159,
+     -18,  -134,    49,   345,   485,   -17,  -170,  -333,  -333,   -13,
+     -38,  -260,  -158,  -158,  -158,  -259,  -124,  -257,  -124,  -324,
+    -324,  -324,   119,   120,   346,   575,   520,   577,   578,  -179,
+    -159,  -148,  -159,  -159,  -296,  -258,   255,  -296,   525,   -41,
+     -35,    53,   -53,  -296,  -333,  -158,  -333,  -158,  -158,   347,
+    -324,  -296,  -324,   656,  -324,  -324,  -168,    50,  -168,    62,
+    -296,   183,   -19,  -132,   661,  -132,    -4,  -118,   654,   655,
+    -123,  -325,  -123,  -125,   648,  -125,  -153,   -11,   184,  -296,
+     -16,   -14,   605,    69,   -18,  -296,  -155,    79,  -296,  -296,
+    -260,    82,   616,   -38,  -259,  -360,  -257,   285,   627,  -179,
+    -296,    92,  -179,  -296,   348,  -296,  -296,    83,   -38,  -133,
+    -296,   -61,  -296,  -296,  -258,  -296,  -296,  -296,   -17,  -170,
+     -60,    88,   -13,   -38,  -296,  -170,  -296,    91,  -296,  -296,
+     -12,  -153,   583,  -296,  -296,  -296,   152,  -134,   -51,   -15,
+     576,  -155,   643,  -296,   646,  -312,  -296,  -296,  -153,   -50,
+    -296,  -296,  -296,  -296,   -36,  -296,    96,   565,  -155,  -296,
+     103,   -11,  -296,  -296,   -16,  -296,  -296,   124,   -20,    -2,
+    -296,  -296,   186,   187,   188,   189,   190,   191,   192,   193,
+     194,   195,   196,   197,  -325,   -10,  -127,  -114,   106,  -153,
+     275,  -133,   117,  -133,   -14,  -153,  -296,  -296,  -296,  -155,
+    -170,  -170,   -17,  -170,   -38,  -155,   -13,   -38,  -360,  -296,
+    -296,  -296,  -296,  -296,  -360,  -341,  -296,  -296,   305,  -296,
+    -296,  -296,  -296,  -296,  -296,  -301,  -296,  -296,  -301,  -296,
+     210,  -296,  -296,   650,  -301,  -343,   651,   -35,  -153,  -153,
+    -153,  -127,  -301,   -12,   306,   144,   -29,   307,  -155,  -155,
+    -155,  -301,   -15,  -360,  -360,   183,  -256,  -126,  -127,   -26,
+    -327,   211,  -127,   286,   287,   288,  -325,  -156,  -325,   313,
+    -301,  -153,   184,  -153,   365,   372,  -301,  -157,   -14,  -301,
+    -301,  -155,    75,  -155,  -155,   314,  -361,   246,  -342,   591,
+    -360,  -301,  -360,  -360,  -301,   592,  -301,  -301,   -10,  -127,
+    -114,  -301,   305,  -301,  -301,  -127,  -301,  -301,  -301,   521,
+    -351,    45,  -126,  -170,   358,  -301,  -354,  -301,   142,  -301,
+    -301,    46,  -156,   -28,  -301,  -301,  -301,   -12,   306,  -126,
+     212,   307,  -157,  -126,  -301,  -256,   -15,  -301,  -301,  -156,
+     363,  -301,  -301,  -301,  -301,   369,  -301,   373,   613,  -157,
+    -301,  -341,    47,  -301,  -301,  -341,  -301,  -301,   151,   -29,
+    -337,  -301,  -301,   186,   187,   188,   189,   190,   191,   154,
+    -126,  -343,   -26,  -327,   374,  -343,  -126,  -154,  -136,  -327,
+    -156,  -127,   -10,  -127,  -114,   375,  -156,  -301,  -301,  -301,
+    -157,  -137,   -27,   157,  -135,  -170,  -157,  -170,   159,  -361,
+    -301,  -301,  -301,  -301,  -301,  -361,  -139,  -301,  -301,   160,
+    -301,  -301,  -301,  -301,  -301,  -301,  -280,  -301,  -301,  -280,
+    -301,   161,  -301,  -301,  -342,  -280,    67,    68,  -342,  -156,
+    -156,  -156,  -154,  -280,   165,  -136,   -28,  -106,   -32,  -157,
+    -157,  -157,  -280,   -29,  -361,  -361,   -31,    54,  -137,  -154,
+      57,  -135,  -126,   114,  -126,  -327,   -26,  -327,  -337,   593,
+      58,  -280,  -156,   179,  -156,  -156,  -180,  -280,  -166,   170,
+    -280,  -280,  -157,  -337,  -157,  -157,   171,  -328,   181,  -337,
+    -349,  -361,  -280,  -361,  -361,  -280,  -175,  -280,  -280,  -175,
+    -154,    59,  -280,  -181,  -280,  -280,  -154,  -280,  -280,  -280,
+     610,   611,  -253,   657,   658,   -27,  -280,  -169,  -280,  -113,
+    -280,  -280,   201,  -253,  -136,  -280,  -280,  -280,   482,   483,
+     -28,   636,   637,   638,   313,  -280,   579,  -137,  -280,  -280,
+    -135,   202,  -280,  -280,  -280,  -280,  -180,  -280,   203,  -180,
+     314,  -280,  -139,   208,  -280,  -280,   206,  -280,  -280,  -254,
+    -106,   -32,  -280,  -280,  -252,  -337,   641,  -337,   339,   -31,
+    -254,   257,   258,  -181,  -129,  -107,  -181,  -177,   248,  -104,
+    -177,  -337,  -154,  -315,  -154,  -154,  -152,  -337,  -280,  -280,
+    -280,  -166,    85,    86,   313,  -152,  -105,  -166,   481,   -27,
+    -328,  -280,  -280,  -280,  -280,  -280,  -328,   209,  -280,  -280,
+     314,  -280,  -280,  -280,  -280,  -280,  -280,   244,  -280,  -280,
+     294,  -280,   295,  -280,  -280,  -247,   482,   483,  -247,  -129,
+    -169,  -152,  -113,   313,  -247,   -34,  -169,   632,  -116,  -336,
+    -154,  -152,  -247,  -108,  -106,   -32,  -129,  -119,   299,   314,
+    -129,  -247,   313,   -31,  -167,  -154,   338,  -154,  -152,   339,
+     251,   114,  -152,  -337,   109,  -337,  -110,  -152,   314,   516,
+    -247,  -253,  -111,  -166,  -253,  -166,  -247,  -162,   259,  -247,
+    -247,   -57,  -328,   283,  -328,   293,  -329,  -129,  -107,   416,
+     296,  -247,  -104,  -129,  -247,   517,  -247,  -247,  -154,  -152,
+     110,  -247,   508,  -247,  -247,  -152,  -247,  -247,  -247,  -105,
+    -154,   337,  -169,   313,  -169,  -247,  -113,  -247,  -254,  -247,
+    -247,  -254,   514,   297,  -247,  -247,  -247,  -154,   298,   314,
+     353,   114,  -162,   354,  -247,   308,   111,  -247,  -247,   340,
+     515,  -247,  -247,  -247,  -247,   -56,  -247,   313,   -34,  -162,
+    -247,  -116,  -336,  -247,  -247,   343,  -247,  -247,  -336,   344,
+    -119,  -247,  -247,   314,   -59,   379,   -55,  -167,  -154,  -129,
+     313,  -129,  -107,  -167,  -154,   -22,  -104,  -335,   -22,  -110,
+    -154,  -152,  -154,  -152,   358,  -111,   314,  -247,  -247,  -247,
+    -162,   380,   378,  -105,   -57,  -176,  -162,   400,  -176,  -329,
+    -247,  -247,  -247,  -247,  -247,  -329,   403,  -247,  -247,   404,
+    -247,  -247,  -247,  -247,  -247,  -247,  -281,  -247,  -247,  -281,
+    -247,   401,  -247,  -247,   580,  -281,  -115,  -334,   402,    75,
+    -332,   313,   -34,  -281,  -336,  -116,  -336,  -330,  -112,  -162,
+    -162,  -162,  -281,   422,  -119,   -58,  -128,   314,   454,  -167,
+    -154,  -167,  -154,   -62,  -161,   109,   -62,   474,   -56,   -64,
+    -231,  -281,   -64,  -110,   352,   -24,   450,  -281,   -24,  -111,
+    -281,  -281,  -162,   -65,  -162,  -162,   -65,   -59,   -57,   -55,
+    -231,  -329,  -281,  -329,   313,  -281,  -231,  -281,  -281,   418,
+    -335,   110,  -281,   430,  -281,  -281,  -335,  -281,  -281,  -281,
+     314,  -128,  -255,   648,   455,   313,  -281,   615,  -281,  -161,
+    -281,  -281,   457,  -255,   649,  -281,  -281,  -281,  -128,   472,
+     458,   314,  -128,   459,   479,  -281,  -161,   111,  -281,  -281,
+     480,   488,  -281,  -281,  -281,  -281,   491,  -281,   492,  -115,
+    -334,  -281,   -56,  -332,  -281,  -281,  -334,  -281,  -281,  -332,
+    -330,  -112,  -281,  -281,   505,   506,  -330,  -334,   -58,  -128,
+    -332,   -59,   512,   -55,   513,  -128,   428,  -161,  -249,   118,
+     119,   120,  -335,  -161,  -335,   524,   527,   528,  -281,  -281,
+    -281,   -47,   530,   545,   -47,  -334,  -334,   529,  -332,  -332,
+     207,  -281,  -281,  -281,  -281,  -281,   552,   608,  -281,  -281,
+     553,  -281,  -281,  -281,  -281,  -281,  -281,   555,  -281,  -281,
+     511,  -281,  -291,  -281,  -281,  -291,  -161,  -161,  -161,   556,
+    -232,  -291,  -334,  -115,  -334,  -332,   558,  -332,   531,  -291,
+     -48,   459,  -330,   -48,  -330,  -112,   -45,   559,  -291,   -45,
+    -232,  -128,   -58,  -128,   313,   560,  -232,   -43,   114,  -161,
+     -43,  -161,  -161,   122,  -249,  -249,  -249,  -291,   561,  -248,
+     314,  -255,   650,  -291,  -255,   651,  -291,  -291,   562,   123,
+     118,   119,   120,   563,   -49,   571,   345,   -49,  -291,   535,
+     581,  -291,   207,  -291,  -291,   564,   -23,  -249,  -291,   -23,
+    -291,  -291,   587,  -291,  -291,  -291,   557,   532,   -66,   339,
+     568,   -66,  -291,   339,  -291,   -63,  -291,  -291,   -63,   585,
+     537,  -291,  -291,  -291,   121,   124,   125,   126,   589,   596,
+     572,  -291,   533,   358,  -291,  -291,   590,  -355,  -291,  -291,
+    -291,  -291,  -347,  -291,  -154,  -154,  -154,  -291,   599,   586,
+    -291,  -291,   358,  -291,  -291,  -248,  -248,  -248,  -291,  -291,
+     538,   127,  -353,   594,   122,   539,   186,   187,   188,   189,
+     190,   191,   540,   541,   128,   -89,   629,  -154,   -46,   -25,
+     123,   -46,   -25,   597,  -291,  -291,  -291,   348,  -248,   542,
+     602,   358,   -89,  -356,   543,   603,   604,  -291,  -291,  -291,
+    -291,  -291,   614,  -178,  -291,  -291,  -178,  -291,  -291,  -291,
+    -291,  -291,  -291,  -294,  -291,  -291,  -294,  -291,   600,  -291,
+    -291,   601,  -294,  -350,   617,   630,   124,   125,   126,  -101,
+    -294,  -352,  -101,   118,   119,   120,  -348,   624,   626,  -294,
+     -89,   -89,   606,  -140,   -89,   339,   607,   618,   -44,   339,
+     358,   -44,  -140,   -42,  -100,   499,   -42,  -100,  -294,   660,
+     628,   634,   127,   358,  -294,   489,   -89,  -294,  -294,   -89,
+     -86,  -174,   647,  -102,   642,   128,  -102,   121,   105,  -294,
+     645,  -250,  -294,   339,  -294,  -294,  -251,   -86,  -140,  -294,
+     659,  -294,  -294,   339,  -294,  -294,  -294,    74,  -140,   461,
+     453,   534,   507,  -294,   566,  -294,   473,  -294,  -294,   342,
+     281,  -117,  -294,  -294,  -294,  -140,  -117,   122,   279,  -140,
+     471,   414,  -294,   204,  -140,  -294,  -294,   205,   620,  -294,
+    -294,  -294,  -294,   123,  -294,   -86,   -86,   619,  -294,   -86,
+     361,  -294,  -294,   476,  -294,  -294,   377,   598,   169,  -294,
+    -294,  -118,     0,     0,     0,     0,  -140,  -117,     0,     0,
+     493,   -86,  -140,     0,   -86,     0,   -83,     0,  -118,     0,
+       0,     0,     0,     0,  -117,  -294,  -294,  -294,  -117,   124,
+     125,   126,     0,   -83,     0,     0,     0,     0,  -294,  -294,
+    -294,  -294,  -294,     0,     0,  -294,  -294,   -77,  -294,  -294,
+    -294,  -294,  -294,  -294,  -297,  -294,  -294,  -297,  -294,     0,
+    -294,  -294,     0,  -297,   -77,   127,  -118,  -118,     0,     0,
+    -118,  -297,  -117,  -117,     0,     0,  -117,     0,   128,     0,
+    -297,   -83,   -83,     0,  -149,   -83,     0,     0,  -140,     0,
+    -140,   152,  -118,  -149,     0,  -118,     0,     0,  -117,  -297,
+       0,  -117,     0,     0,     0,  -297,     0,   -83,  -297,  -297,
+     -83,   -79,   -77,   -77,     0,     0,   -77,     0,     0,     0,
+    -297,     0,     0,  -297,     0,  -297,  -297,     0,   -79,  -149,
+    -297,     0,  -297,  -297,     0,  -297,  -297,  -297,   -77,  -149,
+       0,   -77,     0,     0,  -297,     0,  -297,     0,  -297,  -297,
+       0,     0,     0,  -297,  -297,  -297,  -149,     0,     0,     0,
+    -149,     0,     0,  -297,     0,  -149,  -297,  -297,     0,     0,
+    -297,  -297,  -297,  -297,     0,  -297,   -79,   -79,     0,  -297,
+     -79,     0,  -297,  -297,     0,  -297,  -297,     0,     0,     0,
+    -297,  -297,   -80,     0,   -67,     0,     0,  -149,     0,     0,
+       0,     0,   -79,  -149,   -74,   -79,     0,     0,     0,   -80,
+       0,   -67,     0,     0,     0,     0,  -297,  -297,  -297,     0,
+       0,   -74,     0,     0,     0,     0,     0,     0,     0,  -297,
+    -297,  -297,  -297,  -297,     0,     0,  -297,  -297,   -75,  -297,
+    -297,  -297,  -297,  -297,  -297,  -292,  -297,  -297,  -292,  -297,
+       0,  -297,  -297,     0,  -292,   -75,     0,   -80,   -80,   -67,
+     -67,   -80,  -292,   -67,     0,   -71,     0,     0,     0,   -74,
+     -74,  -292,     0,   -74,     0,     0,     0,     0,     0,  -149,
+       0,  -149,   -71,   -80,   -72,   -67,   -80,     0,   -67,     0,
+    -292,     0,     0,     0,     0,   -74,  -292,     0,   -74,  -292,
+    -292,   -72,     0,   -75,   -75,     0,     0,   -75,     0,     0,
+       0,  -292,     0,     0,  -292,     0,  -292,  -292,     0,     0,
+       0,  -292,     0,  -292,  -292,     0,  -292,  -292,  -292,   -75,
+     -71,   -71,   -75,     0,   -71,  -292,     0,  -292,     0,  -292,
+    -292,     0,     0,     0,  -292,  -292,  -292,     0,     0,   -72,
+     -72,     0,     0,   -72,  -292,     0,   -71,  -292,  -292,   -71,
+       0,  -292,  -292,  -292,  -292,     0,  -292,     0,     0,   381,
+    -292,     0,     0,  -292,  -292,   -72,  -292,  -292,   -72,     0,
+       0,  -292,  -292,   382,     0,   -78,     0,   383,   384,   385,
+     386,   387,     0,   388,   -81,     0,     0,     0,     0,     0,
+       0,   389,   -78,     0,     0,     0,     0,  -292,  -292,  -292,
+       0,   -81,     0,     0,     0,     0,     0,     0,     0,     0,
+    -292,  -292,  -292,  -292,  -292,     0,   390,  -292,  -292,     0,
+    -292,  -292,  -292,  -292,  -292,  -292,  -293,  -292,  -292,  -293,
+    -292,     0,  -292,  -292,   391,  -293,   392,   393,     0,     0,
+     -78,   -78,     0,  -293,   -78,     0,   -76,     0,     0,   -81,
+     -81,   394,  -293,   -81,     0,     0,   395,     0,   396,     0,
+       0,     0,     0,   -76,     0,   -68,   -78,     0,   397,   -78,
+       0,  -293,     0,     0,     0,   -81,     0,  -293,   -81,     0,
+    -293,  -293,   -68,   495,     0,     0,     0,     0,     0,     0,
+       0,     0,  -293,     0,     0,  -293,     0,  -293,  -293,     0,
+     496,   398,  -293,     0,  -293,  -293,     0,  -293,  -293,  -293,
+       0,   -76,   -76,     0,     0,   -76,  -293,   316,  -293,     0,
+    -293,  -293,     0,     0,     0,  -293,  -293,  -293,     0,     0,
+     -68,   -68,     0,     0,   -68,  -293,     0,   -76,  -293,  -293,
+     -76,     0,  -293,  -293,  -293,  -293,     0,  -293,   497,   498,
+       0,  -293,   499,     0,  -293,  -293,   -68,  -293,  -293,   -68,
+       0,     0,  -293,  -293,   317,     0,   -73,     0,     0,     0,
+       0,     0,     0,     0,   -91,     0,     0,   -91,     0,   522,
+       0,     0,     0,   -73,   421,     0,     0,     0,  -293,  -293,
+    -293,     0,   320,     0,     0,     0,     0,     0,     0,   321,
+     322,  -293,  -293,  -293,  -293,  -293,     0,     0,  -293,  -293,
+     -82,  -293,  -293,  -293,  -293,  -293,  -293,  -302,  -293,  -293,
+    -302,  -293,     0,  -293,  -293,     0,  -302,   -82,     0,     0,
+       0,   -73,   -73,     0,  -302,   -73,     0,   -98,   323,   324,
+     325,   326,   327,  -302,     0,   328,   329,     0,   330,   331,
+     332,   333,   334,   335,   -98,   336,   -97,   -73,     0,     0,
+     -73,     0,  -302,     0,     0,     0,     0,     0,  -302,     0,
+       0,  -302,  -302,   -97,   495,   -82,   -82,     0,     0,   -82,
+       0,     0,     0,  -302,     0,     0,  -302,     0,  -302,  -302,
+       0,   496,     0,  -302,     0,  -302,  -302,   -92,  -302,  -302,
+    -302,   -82,   -98,   -98,   -82,     0,   -98,  -302,     0,  -302,
+       0,  -302,  -302,     0,   -92,     0,  -302,  -302,  -302,     0,
+       0,   -97,   -97,     0,     0,   -97,  -302,     0,   -98,  -302,
+    -302,   -98,     0,  -302,  -302,  -302,  -302,     0,  -302,   497,
+     498,     0,  -302,   499,     0,  -302,  -302,   -97,  -302,  -302,
+     -97,     0,     0,  -302,  -302,   -94,     0,   -99,     0,     0,
+       0,     0,   -92,   -92,     0,   -90,   -92,   -96,   -90,     0,
+       0,     0,   -94,   -93,   -99,     0,     0,     0,     0,  -302,
+    -302,  -302,     0,     0,   -96,     0,     0,     0,   -92,     0,
+     -93,   -92,  -302,  -302,  -302,  -302,  -302,     0,     0,  -302,
+    -302,     0,  -302,  -302,  -302,  -302,  -302,  -302,  -284,  -302,
+    -302,  -284,  -302,     0,  -302,  -302,     0,  -284,     0,     0,
+     -94,   -94,   -99,   -99,   -94,  -284,   -99,     0,   -95,     0,
+       0,     0,   -96,   -96,  -284,     0,   -96,     0,   -93,   -93,
+       0,     0,   -93,     0,     0,   -95,   -94,     0,   -99,   -94,
+       0,   -99,     0,  -284,     0,     0,     0,     0,   -96,  -284,
+       0,   -96,  -284,  -284,   -93,   -70,     0,   -93,     0,     0,
+       0,     0,     0,     0,  -284,     0,     0,  -284,     0,  -284,
+    -284,     0,   -70,     0,  -284,     0,  -284,  -284,   -88,  -284,
+    -284,  -284,     0,   -95,   -95,     0,     0,   -95,  -284,     0,
+    -284,     0,  -284,  -284,     0,   -88,     0,  -284,  -284,  -284,
+       0,     0,     0,     0,     0,     0,     0,  -284,     0,   -95,
+    -284,  -284,   -95,     0,  -284,  -284,  -284,  -284,     0,  -284,
+     -70,   -70,     0,  -284,   -70,     0,  -284,  -284,     0,  -284,
+    -284,     0,     0,     0,  -284,  -284,   -84,     0,   -69,     0,
+       0,     0,     0,   -88,   -88,     0,   -70,   -88,   -85,   -70,
+       0,     0,     0,   -84,  -103,   -69,     0,     0,     0,     0,
+    -284,  -284,  -284,     0,     0,   -85,     0,     0,     0,   -88,
+       0,  -103,   -88,  -284,  -284,  -284,  -284,  -284,     0,     0,
+    -284,  -284,     0,  -284,  -284,  -284,  -284,  -284,  -284,  -285,
+    -284,  -284,  -285,  -284,     0,  -284,  -284,     0,  -285,     0,
+       0,   -84,   -84,   -69,   -69,   -84,  -285,   -69,     0,   -87,
+       0,     0,     0,   -85,   -85,  -285,     0,   -85,     0,  -103,
+    -103,     0,     0,  -103,     0,     0,   -87,   -84,     0,   -69,
+     -84,     0,   -69,     0,  -285,     0,     0,     0,     0,   -85,
+    -285,     0,   -85,  -285,  -285,  -103,     0,     0,  -103,     0,
+       0,     0,     0,     0,     0,  -285,     0,     0,  -285,     0,
+    -285,  -285,     0,     0,     0,  -285,     0,  -285,  -285,     0,
+    -285,  -285,  -285,     0,   -87,   -87,     0,     0,   -87,  -285,
+       0,  -285,     0,  -285,  -285,     0,     0,     0,  -285,  -285,
     -285,     0,     0,     0,     0,     0,     0,     0,  -285,     0,
-       0,     0,     0,     0,     0,     0,     0,  -285,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -285,     0,     0,     0,
-       0,     0,  -285,     0,     0,  -285,  -285,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -285,     0,     0,
-    -285,     0,  -285,  -285,     0,     0,     0,  -285,     0,  -285,
-    -285,     0,  -285,  -285,  -285,     0,     0,     0,     0,     0,
-       0,  -285,     0,  -285,     0,  -285,  -285,     0,     0,     0,
-    -285,  -285,  -285,     0,     0,     0,     0,     0,     0,     0,
-    -285,     0,     0,  -285,  -285,     0,     0,  -285,  -285,  -285,
-    -285,     0,  -285,     0,     0,     0,  -285,     0,     0,  -285,
-    -285,     0,  -285,  -285,     0,     0,     0,  -285,  -285,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -285,  -285,  -285,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -285,  -285,  -285,  -285,
-    -285,     0,     0,  -285,  -285,     0,  -285,  -285,  -285,  -285,
-    -285,  -285,  -286,  -285,  -285,  -286,  -285,     0,  -285,  -285,
-       0,  -286,     0,     0,     0,     0,     0,     0,     0,  -286,
-       0,     0,     0,     0,     0,     0,     0,     0,  -286,     0,
+     -87,  -285,  -285,   -87,     0,  -285,  -285,  -285,  -285,     0,
+    -285,     0,     0,     0,  -285,     0,     0,  -285,  -285,     0,
+    -285,  -285,     0,     0,     0,  -285,  -285,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -285,  -285,  -285,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -285,  -285,  -285,  -285,  -285,     0,
+       0,  -285,  -285,     0,  -285,  -285,  -285,  -285,  -285,  -285,
+    -286,  -285,  -285,  -286,  -285,     0,  -285,  -285,     0,  -286,
        0,     0,     0,     0,     0,     0,     0,  -286,     0,     0,
-       0,     0,     0,  -286,     0,     0,  -286,  -286,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -286,     0,
-       0,  -286,     0,  -286,  -286,     0,     0,     0,  -286,     0,
-    -286,  -286,     0,  -286,  -286,  -286,     0,     0,     0,     0,
-       0,     0,  -286,     0,  -286,     0,  -286,  -286,     0,     0,
+       0,     0,     0,     0,     0,     0,  -286,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -286,     0,     0,     0,     0,
+       0,  -286,     0,     0,  -286,  -286,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -286,     0,     0,  -286,
+       0,  -286,  -286,     0,     0,     0,  -286,     0,  -286,  -286,
        0,  -286,  -286,  -286,     0,     0,     0,     0,     0,     0,
-       0,  -286,     0,     0,  -286,  -286,     0,     0,  -286,  -286,
-    -286,  -286,     0,  -286,     0,     0,     0,  -286,     0,     0,
-    -286,  -286,     0,  -286,  -286,     0,     0,     0,  -286,  -286,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -286,  -286,  -286,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -286,  -286,  -286,
-    -286,  -286,     0,     0,  -286,  -286,     0,  -286,  -286,  -286,
-    -286,  -286,  -286,  -259,  -286,  -286,  -259,  -286,     0,  -286,
-    -286,     0,  -259,     0,     0,     0,     0,     0,     0,     0,
-    -259,     0,     0,     0,     0,     0,     0,     0,     0,  -259,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -259,     0,
-       0,     0,     0,     0,  -259,     0,     0,  -259,  -259,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -259,
-       0,     0,  -259,     0,  -259,  -259,     0,     0,     0,  -259,
-       0,  -259,  -259,     0,  -259,  -259,  -259,     0,     0,     0,
-       0,     0,     0,  -259,     0,  -259,     0,  -259,  -259,     0,
-       0,     0,  -259,  -259,  -259,     0,     0,     0,     0,     0,
-       0,     0,  -259,     0,     0,  -259,  -259,     0,     0,  -259,
-    -259,  -259,  -259,     0,  -259,     0,     0,     0,  -259,     0,
-       0,  -259,  -259,     0,  -259,  -259,     0,     0,     0,  -259,
-    -259,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -259,  -259,  -259,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -259,  -259,
-    -259,  -259,  -259,     0,     0,  -259,  -259,     0,  -259,  -259,
-    -259,  -259,  -259,  -259,  -260,  -259,  -259,  -260,  -259,     0,
-    -259,  -259,     0,  -260,     0,     0,     0,     0,     0,     0,
-       0,  -260,     0,     0,     0,     0,     0,     0,     0,     0,
-    -260,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -260,
-       0,     0,     0,     0,     0,  -260,     0,     0,  -260,  -260,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -260,     0,     0,  -260,     0,  -260,  -260,     0,     0,     0,
-    -260,     0,  -260,  -260,     0,  -260,  -260,  -260,     0,     0,
-       0,     0,     0,     0,  -260,     0,  -260,     0,  -260,  -260,
-       0,     0,     0,  -260,  -260,  -260,     0,     0,     0,     0,
-       0,     0,     0,  -260,     0,     0,  -260,  -260,     0,     0,
-    -260,  -260,  -260,  -260,     0,  -260,     0,     0,     0,  -260,
-       0,     0,  -260,  -260,     0,  -260,  -260,     0,     0,     0,
-    -260,  -260,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -260,  -260,  -260,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -260,
-    -260,  -260,  -260,  -260,     0,     0,  -260,  -260,     0,  -260,
-    -260,  -260,  -260,  -260,  -260,  -261,  -260,  -260,  -261,  -260,
-       0,  -260,  -260,     0,  -261,     0,     0,     0,     0,     0,
-       0,     0,  -261,     0,     0,     0,     0,     0,     0,     0,
-       0,  -261,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -261,     0,     0,     0,     0,     0,  -261,     0,     0,  -261,
-    -261,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -261,     0,     0,  -261,     0,  -261,  -261,     0,     0,
-       0,  -261,     0,  -261,  -261,     0,  -261,  -261,  -261,     0,
-       0,     0,     0,     0,     0,  -261,     0,  -261,     0,  -261,
-    -261,     0,     0,     0,  -261,  -261,  -261,     0,     0,     0,
-       0,     0,     0,     0,  -261,     0,     0,  -261,  -261,     0,
-       0,  -261,  -261,  -261,  -261,     0,  -261,     0,     0,     0,
-    -261,     0,     0,  -261,  -261,     0,  -261,  -261,     0,     0,
-       0,  -261,  -261,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -261,  -261,  -261,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -261,  -261,  -261,  -261,  -261,     0,     0,  -261,  -261,     0,
-    -261,  -261,  -261,  -261,  -261,  -261,  -262,  -261,  -261,  -262,
-    -261,     0,  -261,  -261,     0,  -262,     0,     0,     0,     0,
-       0,     0,     0,  -262,     0,     0,     0,     0,     0,     0,
-       0,     0,  -262,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -262,     0,     0,     0,     0,     0,  -262,     0,     0,
-    -262,  -262,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -262,     0,     0,  -262,     0,  -262,  -262,     0,
-       0,     0,  -262,     0,  -262,  -262,     0,  -262,  -262,  -262,
-       0,     0,     0,     0,     0,     0,  -262,     0,  -262,     0,
-    -262,  -262,     0,     0,     0,  -262,  -262,  -262,     0,     0,
-       0,     0,     0,     0,     0,  -262,     0,     0,  -262,  -262,
-       0,     0,  -262,  -262,  -262,  -262,     0,  -262,     0,     0,
-       0,  -262,     0,     0,  -262,  -262,     0,  -262,  -262,     0,
-       0,     0,  -262,  -262,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -262,  -262,
-    -262,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -262,  -262,  -262,  -262,  -262,     0,     0,  -262,  -262,
-       0,  -262,  -262,  -262,  -262,  -262,  -262,  -263,  -262,  -262,
-    -263,  -262,     0,  -262,  -262,     0,  -263,     0,     0,     0,
-       0,     0,     0,     0,  -263,     0,     0,     0,     0,     0,
+    -286,     0,  -286,     0,  -286,  -286,     0,     0,     0,  -286,
+    -286,  -286,     0,     0,     0,     0,     0,     0,     0,  -286,
+       0,     0,  -286,  -286,     0,     0,  -286,  -286,  -286,  -286,
+       0,  -286,     0,     0,     0,  -286,     0,     0,  -286,  -286,
+       0,  -286,  -286,     0,     0,     0,  -286,  -286,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -286,  -286,  -286,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -286,  -286,  -286,  -286,  -286,
+       0,     0,  -286,  -286,     0,  -286,  -286,  -286,  -286,  -286,
+    -286,  -295,  -286,  -286,  -295,  -286,     0,  -286,  -286,     0,
+    -295,     0,     0,     0,     0,     0,     0,     0,  -295,     0,
+       0,     0,     0,     0,     0,     0,     0,  -295,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -295,     0,     0,     0,
+       0,     0,  -295,     0,     0,  -295,  -295,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -295,     0,     0,
+    -295,     0,  -295,  -295,     0,     0,     0,  -295,     0,  -295,
+    -295,     0,  -295,  -295,  -295,     0,     0,     0,     0,     0,
+       0,  -295,     0,  -295,     0,  -295,  -295,     0,     0,     0,
+    -295,  -295,  -295,     0,     0,     0,     0,     0,     0,     0,
+    -295,     0,     0,  -295,  -295,     0,     0,  -295,  -295,  -295,
+    -295,     0,  -295,     0,     0,     0,  -295,     0,     0,  -295,
+    -295,     0,  -295,  -295,     0,     0,     0,  -295,  -295,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -295,  -295,  -295,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -295,  -295,  -295,  -295,
+    -295,     0,     0,  -295,  -295,     0,  -295,  -295,  -295,  -295,
+    -295,  -295,  -287,  -295,  -295,  -287,  -295,     0,  -295,  -295,
+       0,  -287,     0,     0,     0,     0,     0,     0,     0,  -287,
+       0,     0,     0,     0,     0,     0,     0,     0,  -287,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -287,     0,     0,
+       0,     0,     0,  -287,     0,     0,  -287,  -287,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -287,     0,
+       0,  -287,     0,  -287,  -287,     0,     0,     0,  -287,     0,
+    -287,  -287,     0,  -287,  -287,  -287,     0,     0,     0,     0,
+       0,     0,  -287,     0,  -287,     0,  -287,  -287,     0,     0,
+       0,  -287,  -287,  -287,     0,     0,     0,     0,     0,     0,
+       0,  -287,     0,     0,  -287,  -287,     0,     0,  -287,  -287,
+    -287,  -287,     0,  -287,     0,     0,     0,  -287,     0,     0,
+    -287,  -287,     0,  -287,  -287,     0,     0,     0,  -287,  -287,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -287,  -287,  -287,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -287,  -287,  -287,
+    -287,  -287,     0,     0,  -287,  -287,     0,  -287,  -287,  -287,
+    -287,  -287,  -287,  -288,  -287,  -287,  -288,  -287,     0,  -287,
+    -287,     0,  -288,     0,     0,     0,     0,     0,     0,     0,
+    -288,     0,     0,     0,     0,     0,     0,     0,     0,  -288,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -288,     0,
+       0,     0,     0,     0,  -288,     0,     0,  -288,  -288,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -288,
+       0,     0,  -288,     0,  -288,  -288,     0,     0,     0,  -288,
+       0,  -288,  -288,     0,  -288,  -288,  -288,     0,     0,     0,
+       0,     0,     0,  -288,     0,  -288,     0,  -288,  -288,     0,
+       0,     0,  -288,  -288,  -288,     0,     0,     0,     0,     0,
+       0,     0,  -288,     0,     0,  -288,  -288,     0,     0,  -288,
+    -288,  -288,  -288,     0,  -288,     0,     0,     0,  -288,     0,
+       0,  -288,  -288,     0,  -288,  -288,     0,     0,     0,  -288,
+    -288,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -288,  -288,  -288,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -288,  -288,
+    -288,  -288,  -288,     0,     0,  -288,  -288,     0,  -288,  -288,
+    -288,  -288,  -288,  -288,  -289,  -288,  -288,  -289,  -288,     0,
+    -288,  -288,     0,  -289,     0,     0,     0,     0,     0,     0,
+       0,  -289,     0,     0,     0,     0,     0,     0,     0,     0,
+    -289,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -289,
+       0,     0,     0,     0,     0,  -289,     0,     0,  -289,  -289,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -289,     0,     0,  -289,     0,  -289,  -289,     0,     0,     0,
+    -289,     0,  -289,  -289,     0,  -289,  -289,  -289,     0,     0,
+       0,     0,     0,     0,  -289,     0,  -289,     0,  -289,  -289,
+       0,     0,     0,  -289,  -289,  -289,     0,     0,     0,     0,
+       0,     0,     0,  -289,     0,     0,  -289,  -289,     0,     0,
+    -289,  -289,  -289,  -289,     0,  -289,     0,     0,     0,  -289,
+       0,     0,  -289,  -289,     0,  -289,  -289,     0,     0,     0,
+    -289,  -289,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -289,  -289,  -289,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -289,
+    -289,  -289,  -289,  -289,     0,     0,  -289,  -289,     0,  -289,
+    -289,  -289,  -289,  -289,  -289,  -290,  -289,  -289,  -290,  -289,
+       0,  -289,  -289,     0,  -290,     0,     0,     0,     0,     0,
+       0,     0,  -290,     0,     0,     0,     0,     0,     0,     0,
+       0,  -290,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -290,     0,     0,     0,     0,     0,  -290,     0,     0,  -290,
+    -290,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -290,     0,     0,  -290,     0,  -290,  -290,     0,     0,
+       0,  -290,     0,  -290,  -290,     0,  -290,  -290,  -290,     0,
+       0,     0,     0,     0,     0,  -290,     0,  -290,     0,  -290,
+    -290,     0,     0,     0,  -290,  -290,  -290,     0,     0,     0,
+       0,     0,     0,     0,  -290,     0,     0,  -290,  -290,     0,
+       0,  -290,  -290,  -290,  -290,     0,  -290,     0,     0,     0,
+    -290,     0,     0,  -290,  -290,     0,  -290,  -290,     0,     0,
+       0,  -290,  -290,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -290,  -290,  -290,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -290,  -290,  -290,  -290,  -290,     0,     0,  -290,  -290,     0,
+    -290,  -290,  -290,  -290,  -290,  -290,  -263,  -290,  -290,  -263,
+    -290,     0,  -290,  -290,     0,  -263,     0,     0,     0,     0,
        0,     0,     0,  -263,     0,     0,     0,     0,     0,     0,
+       0,     0,  -263,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -263,     0,     0,     0,     0,     0,  -263,     0,
-       0,  -263,  -263,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -263,     0,     0,  -263,     0,  -263,  -263,
-       0,     0,     0,  -263,     0,  -263,  -263,     0,  -263,  -263,
-    -263,     0,     0,     0,     0,     0,     0,  -263,     0,  -263,
-       0,  -263,  -263,     0,     0,     0,  -263,  -263,  -263,     0,
-       0,     0,     0,     0,     0,     0,  -263,     0,     0,  -263,
-    -263,     0,     0,  -263,  -263,  -263,  -263,     0,  -263,     0,
-       0,     0,  -263,     0,     0,  -263,  -263,     0,  -263,  -263,
-       0,     0,     0,  -263,  -263,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -263,
+       0,  -263,     0,     0,     0,     0,     0,  -263,     0,     0,
     -263,  -263,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -263,  -263,  -263,  -263,  -263,     0,     0,  -263,
-    -263,     0,  -263,  -263,  -263,  -263,  -263,  -263,  -264,  -263,
-    -263,  -264,  -263,     0,  -263,  -263,     0,  -264,     0,     0,
-       0,     0,     0,     0,     0,  -264,     0,     0,     0,     0,
+       0,     0,  -263,     0,     0,  -263,     0,  -263,  -263,     0,
+       0,     0,  -263,     0,  -263,  -263,     0,  -263,  -263,  -263,
+       0,     0,     0,     0,     0,     0,  -263,     0,  -263,     0,
+    -263,  -263,     0,     0,     0,  -263,  -263,  -263,     0,     0,
+       0,     0,     0,     0,     0,  -263,     0,     0,  -263,  -263,
+       0,     0,  -263,  -263,  -263,  -263,     0,  -263,     0,     0,
+       0,  -263,     0,     0,  -263,  -263,     0,  -263,  -263,     0,
+       0,     0,  -263,  -263,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -263,  -263,
+    -263,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -263,  -263,  -263,  -263,  -263,     0,     0,  -263,  -263,
+       0,  -263,  -263,  -263,  -263,  -263,  -263,  -264,  -263,  -263,
+    -264,  -263,     0,  -263,  -263,     0,  -264,     0,     0,     0,
        0,     0,     0,     0,  -264,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -264,     0,     0,     0,     0,     0,  -264,
-       0,     0,  -264,  -264,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -264,     0,     0,  -264,     0,  -264,
-    -264,     0,     0,     0,  -264,     0,  -264,  -264,     0,  -264,
-    -264,  -264,     0,     0,     0,     0,     0,     0,  -264,     0,
-    -264,     0,  -264,  -264,     0,     0,     0,  -264,  -264,  -264,
-       0,     0,     0,     0,     0,     0,     0,  -264,     0,     0,
-    -264,  -264,     0,     0,  -264,  -264,  -264,  -264,     0,  -264,
-       0,     0,     0,  -264,     0,     0,  -264,  -264,     0,  -264,
-    -264,     0,     0,     0,  -264,  -264,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -264,  -264,  -264,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -264,  -264,  -264,  -264,  -264,     0,     0,
-    -264,  -264,     0,  -264,  -264,  -264,  -264,  -264,  -264,  -265,
-    -264,  -264,  -265,  -264,     0,  -264,  -264,     0,  -265,     0,
-       0,     0,     0,     0,     0,     0,  -265,     0,     0,     0,
+       0,     0,     0,  -264,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -264,     0,     0,     0,     0,     0,  -264,     0,
+       0,  -264,  -264,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -264,     0,     0,  -264,     0,  -264,  -264,
+       0,     0,     0,  -264,     0,  -264,  -264,     0,  -264,  -264,
+    -264,     0,     0,     0,     0,     0,     0,  -264,     0,  -264,
+       0,  -264,  -264,     0,     0,     0,  -264,  -264,  -264,     0,
+       0,     0,     0,     0,     0,     0,  -264,     0,     0,  -264,
+    -264,     0,     0,  -264,  -264,  -264,  -264,     0,  -264,     0,
+       0,     0,  -264,     0,     0,  -264,  -264,     0,  -264,  -264,
+       0,     0,     0,  -264,  -264,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -264,
+    -264,  -264,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -264,  -264,  -264,  -264,  -264,     0,     0,  -264,
+    -264,     0,  -264,  -264,  -264,  -264,  -264,  -264,  -265,  -264,
+    -264,  -265,  -264,     0,  -264,  -264,     0,  -265,     0,     0,
        0,     0,     0,     0,     0,  -265,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,  -265,     0,     0,     0,     0,     0,
-    -265,     0,     0,  -265,  -265,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -265,     0,     0,  -265,     0,
-    -265,  -265,     0,     0,     0,  -265,     0,  -265,  -265,     0,
-    -265,  -265,  -265,     0,     0,     0,     0,     0,     0,  -265,
-       0,  -265,     0,  -265,  -265,     0,     0,     0,  -265,  -265,
-    -265,     0,     0,     0,     0,     0,     0,     0,  -265,     0,
-       0,  -265,  -265,     0,     0,  -265,  -265,  -265,  -265,     0,
-    -265,     0,     0,     0,  -265,     0,     0,  -265,  -265,     0,
-    -265,  -265,     0,     0,     0,  -265,  -265,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -265,  -265,  -265,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -265,  -265,  -265,  -265,  -265,     0,
-       0,  -265,  -265,     0,  -265,  -265,  -265,  -265,  -265,  -265,
-    -266,  -265,  -265,  -266,  -265,     0,  -265,  -265,     0,  -266,
-       0,     0,     0,     0,     0,     0,     0,  -266,     0,     0,
-       0,     0,     0,     0,     0,     0,  -266,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -265,     0,     0,     0,     0,     0,  -265,
+       0,     0,  -265,  -265,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -265,     0,     0,  -265,     0,  -265,
+    -265,     0,     0,     0,  -265,     0,  -265,  -265,     0,  -265,
+    -265,  -265,     0,     0,     0,     0,     0,     0,  -265,     0,
+    -265,     0,  -265,  -265,     0,     0,     0,  -265,  -265,  -265,
+       0,     0,     0,     0,     0,     0,     0,  -265,     0,     0,
+    -265,  -265,     0,     0,  -265,  -265,  -265,  -265,     0,  -265,
+       0,     0,     0,  -265,     0,     0,  -265,  -265,     0,  -265,
+    -265,     0,     0,     0,  -265,  -265,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -265,  -265,  -265,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -265,  -265,  -265,  -265,  -265,     0,     0,
+    -265,  -265,     0,  -265,  -265,  -265,  -265,  -265,  -265,  -266,
+    -265,  -265,  -266,  -265,     0,  -265,  -265,     0,  -266,     0,
+       0,     0,     0,     0,     0,     0,  -266,     0,     0,     0,
        0,     0,     0,     0,     0,  -266,     0,     0,     0,     0,
-       0,  -266,     0,     0,  -266,  -266,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -266,     0,     0,  -266,
-       0,  -266,  -266,     0,     0,     0,  -266,     0,  -266,  -266,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -266,     0,     0,     0,     0,     0,
+    -266,     0,     0,  -266,  -266,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -266,     0,     0,  -266,     0,
+    -266,  -266,     0,     0,     0,  -266,     0,  -266,  -266,     0,
+    -266,  -266,  -266,     0,     0,     0,     0,     0,     0,  -266,
+       0,  -266,     0,  -266,  -266,     0,     0,     0,  -266,  -266,
+    -266,     0,     0,     0,     0,     0,     0,     0,  -266,     0,
+       0,  -266,  -266,     0,     0,  -266,  -266,  -266,  -266,     0,
+    -266,     0,     0,     0,  -266,     0,     0,  -266,  -266,     0,
+    -266,  -266,     0,     0,     0,  -266,  -266,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,  -266,  -266,  -266,     0,     0,     0,     0,     0,     0,
-    -266,     0,  -266,     0,  -266,  -266,     0,     0,     0,  -266,
-    -266,  -266,     0,     0,     0,     0,     0,     0,     0,  -266,
-       0,     0,  -266,  -266,     0,     0,  -266,  -266,  -266,  -266,
-       0,  -266,     0,     0,     0,  -266,     0,     0,  -266,  -266,
-       0,  -266,  -266,     0,     0,     0,  -266,  -266,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -266,  -266,  -266,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -266,  -266,  -266,  -266,  -266,
-       0,     0,  -266,  -266,     0,  -266,  -266,  -266,  -266,  -266,
-    -266,  -267,  -266,  -266,  -267,  -266,     0,  -266,  -266,     0,
-    -267,     0,     0,     0,     0,     0,     0,     0,  -267,     0,
+       0,     0,     0,     0,  -266,  -266,  -266,  -266,  -266,     0,
+       0,  -266,  -266,     0,  -266,  -266,  -266,  -266,  -266,  -266,
+    -267,  -266,  -266,  -267,  -266,     0,  -266,  -266,     0,  -267,
        0,     0,     0,     0,     0,     0,     0,  -267,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,  -267,     0,     0,     0,
-       0,     0,  -267,     0,     0,  -267,  -267,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -267,     0,     0,
-    -267,     0,  -267,  -267,     0,     0,     0,  -267,     0,  -267,
-    -267,     0,  -267,  -267,  -267,     0,     0,     0,     0,     0,
-       0,  -267,     0,  -267,     0,  -267,  -267,     0,     0,     0,
-    -267,  -267,  -267,     0,     0,     0,     0,     0,     0,     0,
-    -267,     0,     0,  -267,  -267,     0,     0,  -267,  -267,  -267,
-    -267,     0,  -267,     0,     0,     0,  -267,     0,     0,  -267,
-    -267,     0,  -267,  -267,     0,     0,     0,  -267,  -267,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -267,  -267,  -267,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -267,  -267,  -267,  -267,
-    -267,     0,     0,  -267,  -267,     0,  -267,  -267,  -267,  -267,
-    -267,  -267,  -268,  -267,  -267,  -268,  -267,     0,  -267,  -267,
-       0,  -268,     0,     0,     0,     0,     0,     0,     0,  -268,
-       0,     0,     0,     0,     0,     0,     0,     0,  -268,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -267,     0,     0,     0,     0,
+       0,  -267,     0,     0,  -267,  -267,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -267,     0,     0,  -267,
+       0,  -267,  -267,     0,     0,     0,  -267,     0,  -267,  -267,
+       0,  -267,  -267,  -267,     0,     0,     0,     0,     0,     0,
+    -267,     0,  -267,     0,  -267,  -267,     0,     0,     0,  -267,
+    -267,  -267,     0,     0,     0,     0,     0,     0,     0,  -267,
+       0,     0,  -267,  -267,     0,     0,  -267,  -267,  -267,  -267,
+       0,  -267,     0,     0,     0,  -267,     0,     0,  -267,  -267,
+       0,  -267,  -267,     0,     0,     0,  -267,  -267,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -267,  -267,  -267,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -267,  -267,  -267,  -267,  -267,
+       0,     0,  -267,  -267,     0,  -267,  -267,  -267,  -267,  -267,
+    -267,  -268,  -267,  -267,  -268,  -267,     0,  -267,  -267,     0,
+    -268,     0,     0,     0,     0,     0,     0,     0,  -268,     0,
        0,     0,     0,     0,     0,     0,     0,  -268,     0,     0,
-       0,     0,     0,  -268,     0,     0,  -268,  -268,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -268,     0,
-       0,  -268,     0,  -268,  -268,     0,     0,     0,  -268,     0,
-    -268,  -268,     0,  -268,  -268,  -268,     0,     0,     0,     0,
-       0,     0,  -268,     0,  -268,     0,  -268,  -268,     0,     0,
-       0,  -268,  -268,  -268,     0,     0,     0,     0,     0,     0,
-       0,  -268,     0,     0,  -268,  -268,     0,     0,  -268,  -268,
-    -268,  -268,     0,  -268,     0,     0,     0,  -268,     0,     0,
-    -268,  -268,     0,  -268,  -268,     0,     0,     0,  -268,  -268,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -268,  -268,  -268,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -268,  -268,  -268,
-    -268,  -268,     0,     0,  -268,  -268,     0,  -268,  -268,  -268,
-    -268,  -268,  -268,  -269,  -268,  -268,  -269,  -268,     0,  -268,
-    -268,     0,  -269,     0,     0,     0,     0,     0,     0,     0,
-    -269,     0,     0,     0,     0,     0,     0,     0,     0,  -269,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -268,     0,     0,     0,
+       0,     0,  -268,     0,     0,  -268,  -268,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -268,     0,     0,
+    -268,     0,  -268,  -268,     0,     0,     0,  -268,     0,  -268,
+    -268,     0,  -268,  -268,  -268,     0,     0,     0,     0,     0,
+       0,  -268,     0,  -268,     0,  -268,  -268,     0,     0,     0,
+    -268,  -268,  -268,     0,     0,     0,     0,     0,     0,     0,
+    -268,     0,     0,  -268,  -268,     0,     0,  -268,  -268,  -268,
+    -268,     0,  -268,     0,     0,     0,  -268,     0,     0,  -268,
+    -268,     0,  -268,  -268,     0,     0,     0,  -268,  -268,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -268,  -268,  -268,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -268,  -268,  -268,  -268,
+    -268,     0,     0,  -268,  -268,     0,  -268,  -268,  -268,  -268,
+    -268,  -268,  -269,  -268,  -268,  -269,  -268,     0,  -268,  -268,
+       0,  -269,     0,     0,     0,     0,     0,     0,     0,  -269,
        0,     0,     0,     0,     0,     0,     0,     0,  -269,     0,
-       0,     0,     0,     0,  -269,     0,     0,  -269,  -269,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -269,
-       0,     0,  -269,     0,  -269,  -269,     0,     0,     0,  -269,
-       0,  -269,  -269,     0,  -269,  -269,  -269,     0,     0,     0,
-       0,     0,     0,  -269,     0,  -269,     0,  -269,  -269,     0,
-       0,     0,  -269,  -269,  -269,     0,     0,     0,     0,     0,
-       0,     0,  -269,     0,     0,  -269,  -269,     0,     0,  -269,
-    -269,  -269,  -269,     0,  -269,     0,     0,     0,  -269,     0,
-       0,  -269,  -269,     0,  -269,  -269,     0,     0,     0,  -269,
-    -269,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -269,  -269,  -269,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -269,  -269,
-    -269,  -269,  -269,     0,     0,  -269,  -269,     0,  -269,  -269,
-    -269,  -269,  -269,  -269,  -270,  -269,  -269,  -270,  -269,     0,
-    -269,  -269,     0,  -270,     0,     0,     0,     0,     0,     0,
-       0,  -270,     0,     0,     0,     0,     0,     0,     0,     0,
-    -270,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -270,
-       0,     0,     0,     0,     0,  -270,     0,     0,  -270,  -270,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -270,     0,     0,  -270,     0,  -270,  -270,     0,     0,     0,
-    -270,     0,  -270,  -270,     0,  -270,  -270,  -270,     0,     0,
-       0,     0,     0,     0,  -270,     0,  -270,     0,  -270,  -270,
-       0,     0,     0,  -270,  -270,  -270,     0,     0,     0,     0,
-       0,     0,     0,  -270,     0,     0,  -270,  -270,     0,     0,
-    -270,  -270,  -270,  -270,     0,  -270,     0,     0,     0,  -270,
-       0,     0,  -270,  -270,     0,  -270,  -270,     0,     0,     0,
-    -270,  -270,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -270,  -270,  -270,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -269,     0,     0,
+       0,     0,     0,  -269,     0,     0,  -269,  -269,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -269,     0,
+       0,  -269,     0,  -269,  -269,     0,     0,     0,  -269,     0,
+    -269,  -269,     0,  -269,  -269,  -269,     0,     0,     0,     0,
+       0,     0,  -269,     0,  -269,     0,  -269,  -269,     0,     0,
+       0,  -269,  -269,  -269,     0,     0,     0,     0,     0,     0,
+       0,  -269,     0,     0,  -269,  -269,     0,     0,  -269,  -269,
+    -269,  -269,     0,  -269,     0,     0,     0,  -269,     0,     0,
+    -269,  -269,     0,  -269,  -269,     0,     0,     0,  -269,  -269,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -269,  -269,  -269,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -269,  -269,  -269,
+    -269,  -269,     0,     0,  -269,  -269,     0,  -269,  -269,  -269,
+    -269,  -269,  -269,  -270,  -269,  -269,  -270,  -269,     0,  -269,
+    -269,     0,  -270,     0,     0,     0,     0,     0,     0,     0,
+    -270,     0,     0,     0,     0,     0,     0,     0,     0,  -270,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -270,     0,
+       0,     0,     0,     0,  -270,     0,     0,  -270,  -270,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,  -270,
-    -270,  -270,  -270,  -270,     0,     0,  -270,  -270,     0,  -270,
-    -270,  -270,  -270,  -270,  -270,  -271,  -270,  -270,  -271,  -270,
-       0,  -270,  -270,     0,  -271,     0,     0,     0,     0,     0,
-       0,     0,  -271,     0,     0,     0,     0,     0,     0,     0,
-       0,  -271,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -270,     0,  -270,  -270,     0,     0,     0,  -270,
+       0,  -270,  -270,     0,  -270,  -270,  -270,     0,     0,     0,
+       0,     0,     0,  -270,     0,  -270,     0,  -270,  -270,     0,
+       0,     0,  -270,  -270,  -270,     0,     0,     0,     0,     0,
+       0,     0,  -270,     0,     0,  -270,  -270,     0,     0,  -270,
+    -270,  -270,  -270,     0,  -270,     0,     0,     0,  -270,     0,
+       0,  -270,  -270,     0,  -270,  -270,     0,     0,     0,  -270,
+    -270,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -271,     0,     0,     0,     0,     0,  -271,     0,     0,  -271,
+       0,     0,     0,     0,     0,  -270,  -270,  -270,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -270,  -270,
+    -270,  -270,  -270,     0,     0,  -270,  -270,     0,  -270,  -270,
+    -270,  -270,  -270,  -270,  -271,  -270,  -270,  -271,  -270,     0,
+    -270,  -270,     0,  -271,     0,     0,     0,     0,     0,     0,
+       0,  -271,     0,     0,     0,     0,     0,     0,     0,     0,
     -271,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -271,     0,     0,  -271,     0,  -271,  -271,     0,     0,
-       0,  -271,     0,  -271,  -271,     0,  -271,  -271,  -271,     0,
-       0,     0,     0,     0,     0,  -271,     0,  -271,     0,  -271,
-    -271,     0,     0,     0,  -271,  -271,  -271,     0,     0,     0,
-       0,     0,     0,     0,  -271,     0,     0,  -271,  -271,     0,
-       0,  -271,  -271,  -271,  -271,     0,  -271,     0,     0,     0,
-    -271,     0,     0,  -271,  -271,     0,  -271,  -271,     0,     0,
-       0,  -271,  -271,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -271,  -271,  -271,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -271,  -271,  -271,  -271,  -271,     0,     0,  -271,  -271,     0,
-    -271,  -271,  -271,  -271,  -271,  -271,  -272,  -271,  -271,  -272,
-    -271,     0,  -271,  -271,     0,  -272,     0,     0,     0,     0,
-       0,     0,     0,  -272,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -271,
+       0,     0,     0,     0,     0,  -271,     0,     0,  -271,  -271,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -271,     0,     0,  -271,     0,  -271,  -271,     0,     0,     0,
+    -271,     0,  -271,  -271,     0,  -271,  -271,  -271,     0,     0,
+       0,     0,     0,     0,  -271,     0,  -271,     0,  -271,  -271,
+       0,     0,     0,  -271,  -271,  -271,     0,     0,     0,     0,
+       0,     0,     0,  -271,     0,     0,  -271,  -271,     0,     0,
+    -271,  -271,  -271,  -271,     0,  -271,     0,     0,     0,  -271,
+       0,     0,  -271,  -271,     0,  -271,  -271,     0,     0,     0,
+    -271,  -271,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -271,  -271,  -271,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -271,
+    -271,  -271,  -271,  -271,     0,     0,  -271,  -271,     0,  -271,
+    -271,  -271,  -271,  -271,  -271,  -272,  -271,  -271,  -272,  -271,
+       0,  -271,  -271,     0,  -272,     0,     0,     0,     0,     0,
        0,     0,  -272,     0,     0,     0,     0,     0,     0,     0,
+       0,  -272,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -272,     0,     0,     0,     0,     0,  -272,     0,     0,
-    -272,  -272,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -272,     0,     0,  -272,     0,  -272,  -272,     0,
-       0,     0,  -272,     0,  -272,  -272,     0,  -272,  -272,  -272,
-       0,     0,     0,     0,     0,     0,  -272,     0,  -272,     0,
-    -272,  -272,     0,     0,     0,  -272,  -272,  -272,     0,     0,
-       0,     0,     0,     0,     0,  -272,     0,     0,  -272,  -272,
-       0,     0,  -272,  -272,  -272,  -272,     0,  -272,     0,     0,
-       0,  -272,     0,     0,  -272,  -272,     0,  -272,  -272,     0,
-       0,     0,  -272,  -272,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -272,  -272,
+    -272,     0,     0,     0,     0,     0,  -272,     0,     0,  -272,
     -272,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -272,  -272,  -272,  -272,  -272,     0,     0,  -272,  -272,
-       0,  -272,  -272,  -272,  -272,  -272,  -272,  -295,  -272,  -272,
-    -295,  -272,     0,  -272,  -272,     0,  -295,     0,     0,     0,
-       0,     0,     0,     0,  -295,     0,     0,     0,     0,     0,
-       0,     0,     0,  -295,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -295,     0,     0,     0,     0,     0,  -295,     0,
-       0,  -295,  -295,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -295,     0,     0,  -295,     0,  -295,  -295,
-       0,     0,     0,  -295,     0,  -295,  -295,     0,  -295,  -295,
-    -295,     0,     0,     0,     0,     0,     0,  -295,     0,  -295,
-       0,  -295,  -295,     0,     0,     0,  -295,  -295,  -295,     0,
-       0,     0,     0,     0,     0,     0,  -295,     0,     0,  -295,
-    -295,     0,     0,  -295,  -295,  -295,  -295,     0,  -295,     0,
-       0,     0,  -295,     0,     0,  -295,  -295,     0,  -295,  -295,
-       0,     0,     0,  -295,  -295,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -295,
-    -295,  -295,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -295,  -295,  -295,  -295,  -295,     0,     0,  -295,
-    -295,     0,  -295,  -295,  -295,  -295,  -295,  -295,  -294,  -295,
-    -295,  -294,  -295,     0,  -295,  -295,     0,  -294,     0,     0,
-       0,     0,     0,     0,     0,  -294,     0,     0,     0,     0,
-       0,     0,     0,     0,  -294,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -294,     0,     0,     0,     0,     0,  -294,
-       0,     0,  -294,  -294,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -294,     0,     0,  -294,     0,  -294,
-    -294,     0,     0,     0,  -294,     0,  -294,  -294,     0,  -294,
-    -294,  -294,     0,     0,     0,     0,     0,     0,  -294,     0,
-    -294,     0,  -294,  -294,     0,     0,     0,  -294,  -294,  -294,
-       0,     0,     0,     0,     0,     0,     0,  -294,     0,     0,
-    -294,  -294,     0,     0,  -294,  -294,  -294,  -294,     0,  -294,
-       0,     0,     0,  -294,     0,     0,  -294,  -294,     0,  -294,
-    -294,     0,     0,     0,  -294,  -294,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -294,  -294,  -294,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -294,  -294,  -294,  -294,  -294,     0,     0,
-    -294,  -294,     0,  -294,  -294,  -294,  -294,  -294,  -294,  -278,
-    -294,  -294,  -278,  -294,     0,  -294,  -294,     0,  -278,     0,
-       0,     0,     0,     0,     0,     0,  -278,     0,     0,     0,
-       0,     0,     0,     0,     0,  -278,     0,     0,     0,     0,
+       0,  -272,     0,     0,  -272,     0,  -272,  -272,     0,     0,
+       0,  -272,     0,  -272,  -272,     0,  -272,  -272,  -272,     0,
+       0,     0,     0,     0,     0,  -272,     0,  -272,     0,  -272,
+    -272,     0,     0,     0,  -272,  -272,  -272,     0,     0,     0,
+       0,     0,     0,     0,  -272,     0,     0,  -272,  -272,     0,
+       0,  -272,  -272,  -272,  -272,     0,  -272,     0,     0,     0,
+    -272,     0,     0,  -272,  -272,     0,  -272,  -272,     0,     0,
+       0,  -272,  -272,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -272,  -272,  -272,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -272,  -272,  -272,  -272,  -272,     0,     0,  -272,  -272,     0,
+    -272,  -272,  -272,  -272,  -272,  -272,  -273,  -272,  -272,  -273,
+    -272,     0,  -272,  -272,     0,  -273,     0,     0,     0,     0,
+       0,     0,     0,  -273,     0,     0,     0,     0,     0,     0,
+       0,     0,  -273,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -273,     0,     0,     0,     0,     0,  -273,     0,     0,
+    -273,  -273,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -273,     0,     0,  -273,     0,  -273,  -273,     0,
+       0,     0,  -273,     0,  -273,  -273,     0,  -273,  -273,  -273,
+       0,     0,     0,     0,     0,     0,  -273,     0,  -273,     0,
+    -273,  -273,     0,     0,     0,  -273,  -273,  -273,     0,     0,
+       0,     0,     0,     0,     0,  -273,     0,     0,  -273,  -273,
+       0,     0,  -273,  -273,  -273,  -273,     0,  -273,     0,     0,
+       0,  -273,     0,     0,  -273,  -273,     0,  -273,  -273,     0,
+       0,     0,  -273,  -273,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -273,  -273,
+    -273,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -273,  -273,  -273,  -273,  -273,     0,     0,  -273,  -273,
+       0,  -273,  -273,  -273,  -273,  -273,  -273,  -274,  -273,  -273,
+    -274,  -273,     0,  -273,  -273,     0,  -274,     0,     0,     0,
+       0,     0,     0,     0,  -274,     0,     0,     0,     0,     0,
+       0,     0,     0,  -274,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -274,     0,     0,     0,     0,     0,  -274,     0,
+       0,  -274,  -274,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -274,     0,     0,  -274,     0,  -274,  -274,
+       0,     0,     0,  -274,     0,  -274,  -274,     0,  -274,  -274,
+    -274,     0,     0,     0,     0,     0,     0,  -274,     0,  -274,
+       0,  -274,  -274,     0,     0,     0,  -274,  -274,  -274,     0,
+       0,     0,     0,     0,     0,     0,  -274,     0,     0,  -274,
+    -274,     0,     0,  -274,  -274,  -274,  -274,     0,  -274,     0,
+       0,     0,  -274,     0,     0,  -274,  -274,     0,  -274,  -274,
+       0,     0,     0,  -274,  -274,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -278,     0,     0,     0,     0,     0,
-    -278,     0,     0,  -278,  -278,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -278,     0,     0,  -278,     0,
-    -278,  -278,     0,     0,     0,  -278,     0,  -278,  -278,     0,
-    -278,  -278,  -278,     0,     0,     0,     0,     0,     0,  -278,
-       0,  -278,     0,  -278,  -278,     0,     0,     0,  -278,  -278,
-    -278,     0,     0,     0,     0,     0,     0,     0,  -278,     0,
-       0,  -278,  -278,     0,     0,  -278,  -278,  -278,  -278,     0,
-    -278,     0,     0,     0,  -278,     0,     0,  -278,  -278,     0,
-    -278,  -278,     0,     0,     0,  -278,  -278,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -278,  -278,  -278,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -278,  -278,  -278,  -278,  -278,     0,
-       0,  -278,  -278,     0,  -278,  -278,  -278,  -278,  -278,  -278,
-    -183,  -278,  -278,  -183,  -278,     0,  -278,  -278,     0,  -183,
-       0,     0,     0,     0,     0,     0,     0,   310,     0,     0,
-       0,     0,     0,     0,     0,     0,  -183,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -183,     0,     0,     0,     0,
-       0,  -183,     0,     0,   311,  -183,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -183,     0,     0,  -183,
-       0,  -183,  -183,     0,     0,     0,  -183,     0,  -183,  -183,
-       0,  -183,  -183,  -183,     0,     0,     0,     0,     0,     0,
-    -183,     0,  -183,     0,  -183,  -183,     0,     0,     0,  -183,
-    -183,   312,     0,     0,     0,     0,     0,     0,     0,  -183,
-       0,     0,  -183,  -183,     0,     0,  -183,  -183,  -183,  -183,
-       0,   313,     0,     0,     0,  -183,     0,     0,   314,   315,
-       0,  -183,  -183,     0,     0,     0,   316,   317,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -183,  -183,  -183,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,   318,   319,   320,   321,   322,
-       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
-     330,  -190,   331,  -183,  -190,  -183,     0,  -183,  -183,     0,
-    -190,     0,     0,     0,     0,     0,     0,     0,  -190,     0,
-       0,     0,     0,     0,     0,     0,     0,  -190,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -190,     0,     0,     0,
-       0,     0,  -190,     0,     0,  -190,  -190,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -190,     0,     0,
-    -190,     0,  -190,  -190,     0,     0,     0,  -190,     0,  -190,
-    -190,     0,  -190,  -190,  -190,     0,     0,     0,     0,     0,
-       0,  -190,     0,  -190,     0,  -190,  -190,     0,     0,     0,
-    -190,  -190,  -190,     0,     0,     0,     0,     0,     0,     0,
-    -190,     0,     0,  -190,  -190,     0,     0,  -190,  -190,  -190,
-    -190,     0,  -190,     0,     0,     0,  -190,     0,     0,  -190,
-    -190,     0,  -190,  -190,     0,     0,     0,  -190,  -190,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -190,  -190,  -190,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -190,  -190,  -190,  -190,
-    -190,     0,     0,  -190,  -190,     0,  -190,  -190,  -190,  -190,
-    -190,  -190,  -191,  -190,  -190,  -191,  -190,     0,  -190,  -190,
-       0,  -191,     0,     0,     0,     0,     0,     0,     0,  -191,
-       0,     0,     0,     0,     0,     0,     0,     0,  -191,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -191,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -274,
+    -274,  -274,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -274,  -274,  -274,  -274,  -274,     0,     0,  -274,
+    -274,     0,  -274,  -274,  -274,  -274,  -274,  -274,  -275,  -274,
+    -274,  -275,  -274,     0,  -274,  -274,     0,  -275,     0,     0,
+       0,     0,     0,     0,     0,  -275,     0,     0,     0,     0,
+       0,     0,     0,     0,  -275,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -275,     0,     0,     0,     0,     0,  -275,
+       0,     0,  -275,  -275,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -275,     0,     0,  -275,     0,  -275,
+    -275,     0,     0,     0,  -275,     0,  -275,  -275,     0,  -275,
+    -275,  -275,     0,     0,     0,     0,     0,     0,  -275,     0,
+    -275,     0,  -275,  -275,     0,     0,     0,  -275,  -275,  -275,
+       0,     0,     0,     0,     0,     0,     0,  -275,     0,     0,
+    -275,  -275,     0,     0,  -275,  -275,  -275,  -275,     0,  -275,
+       0,     0,     0,  -275,     0,     0,  -275,  -275,     0,  -275,
+    -275,     0,     0,     0,  -275,  -275,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -275,  -275,  -275,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -275,  -275,  -275,  -275,  -275,     0,     0,
+    -275,  -275,     0,  -275,  -275,  -275,  -275,  -275,  -275,  -276,
+    -275,  -275,  -276,  -275,     0,  -275,  -275,     0,  -276,     0,
+       0,     0,     0,     0,     0,     0,  -276,     0,     0,     0,
+       0,     0,     0,     0,     0,  -276,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -276,     0,     0,     0,     0,     0,
+    -276,     0,     0,  -276,  -276,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -276,     0,     0,  -276,     0,
+    -276,  -276,     0,     0,     0,  -276,     0,  -276,  -276,     0,
+    -276,  -276,  -276,     0,     0,     0,     0,     0,     0,  -276,
+       0,  -276,     0,  -276,  -276,     0,     0,     0,  -276,  -276,
+    -276,     0,     0,     0,     0,     0,     0,     0,  -276,     0,
+       0,  -276,  -276,     0,     0,  -276,  -276,  -276,  -276,     0,
+    -276,     0,     0,     0,  -276,     0,     0,  -276,  -276,     0,
+    -276,  -276,     0,     0,     0,  -276,  -276,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -276,  -276,  -276,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -276,  -276,  -276,  -276,  -276,     0,
+       0,  -276,  -276,     0,  -276,  -276,  -276,  -276,  -276,  -276,
+    -299,  -276,  -276,  -299,  -276,     0,  -276,  -276,     0,  -299,
+       0,     0,     0,     0,     0,     0,     0,  -299,     0,     0,
+       0,     0,     0,     0,     0,     0,  -299,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -299,     0,     0,     0,     0,
+       0,  -299,     0,     0,  -299,  -299,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -299,     0,     0,  -299,
+       0,  -299,  -299,     0,     0,     0,  -299,     0,  -299,  -299,
+       0,  -299,  -299,  -299,     0,     0,     0,     0,     0,     0,
+    -299,     0,  -299,     0,  -299,  -299,     0,     0,     0,  -299,
+    -299,  -299,     0,     0,     0,     0,     0,     0,     0,  -299,
+       0,     0,  -299,  -299,     0,     0,  -299,  -299,  -299,  -299,
+       0,  -299,     0,     0,     0,  -299,     0,     0,  -299,  -299,
+       0,  -299,  -299,     0,     0,     0,  -299,  -299,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -299,  -299,  -299,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -299,  -299,  -299,  -299,  -299,
+       0,     0,  -299,  -299,     0,  -299,  -299,  -299,  -299,  -299,
+    -299,  -298,  -299,  -299,  -298,  -299,     0,  -299,  -299,     0,
+    -298,     0,     0,     0,     0,     0,     0,     0,  -298,     0,
+       0,     0,     0,     0,     0,     0,     0,  -298,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -298,     0,     0,     0,
+       0,     0,  -298,     0,     0,  -298,  -298,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -298,     0,     0,
+    -298,     0,  -298,  -298,     0,     0,     0,  -298,     0,  -298,
+    -298,     0,  -298,  -298,  -298,     0,     0,     0,     0,     0,
+       0,  -298,     0,  -298,     0,  -298,  -298,     0,     0,     0,
+    -298,  -298,  -298,     0,     0,     0,     0,     0,     0,     0,
+    -298,     0,     0,  -298,  -298,     0,     0,  -298,  -298,  -298,
+    -298,     0,  -298,     0,     0,     0,  -298,     0,     0,  -298,
+    -298,     0,  -298,  -298,     0,     0,     0,  -298,  -298,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -298,  -298,  -298,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -298,  -298,  -298,  -298,
+    -298,     0,     0,  -298,  -298,     0,  -298,  -298,  -298,  -298,
+    -298,  -298,  -282,  -298,  -298,  -282,  -298,     0,  -298,  -298,
+       0,  -282,     0,     0,     0,     0,     0,     0,     0,  -282,
+       0,     0,     0,     0,     0,     0,     0,     0,  -282,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -282,     0,     0,
+       0,     0,     0,  -282,     0,     0,  -282,  -282,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -282,     0,
+       0,  -282,     0,  -282,  -282,     0,     0,     0,  -282,     0,
+    -282,  -282,     0,  -282,  -282,  -282,     0,     0,     0,     0,
+       0,     0,  -282,     0,  -282,     0,  -282,  -282,     0,     0,
+       0,  -282,  -282,  -282,     0,     0,     0,     0,     0,     0,
+       0,  -282,     0,     0,  -282,  -282,     0,     0,  -282,  -282,
+    -282,  -282,     0,  -282,     0,     0,     0,  -282,     0,     0,
+    -282,  -282,     0,  -282,  -282,     0,     0,     0,  -282,  -282,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -282,  -282,  -282,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -282,  -282,  -282,
+    -282,  -282,     0,     0,  -282,  -282,     0,  -282,  -282,  -282,
+    -282,  -282,  -282,  -183,  -282,  -282,  -183,  -282,     0,  -282,
+    -282,     0,  -183,     0,     0,     0,     0,     0,     0,     0,
+     315,     0,     0,     0,     0,     0,     0,     0,     0,  -183,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -183,     0,
+       0,     0,     0,     0,  -183,     0,     0,   316,  -183,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -183,
+       0,     0,  -183,     0,  -183,  -183,     0,     0,     0,  -183,
+       0,  -183,  -183,     0,  -183,  -183,  -183,     0,     0,     0,
+       0,     0,     0,  -183,     0,  -183,     0,  -183,  -183,     0,
+       0,     0,  -183,  -183,   317,     0,     0,     0,     0,     0,
+       0,     0,  -183,     0,     0,  -183,  -183,     0,     0,  -183,
+    -183,  -183,  -183,     0,   318,     0,     0,     0,  -183,     0,
+       0,   319,   320,     0,  -183,  -183,     0,     0,     0,   321,
+     322,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -183,  -183,  -183,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   323,   324,
+     325,   326,   327,     0,     0,   328,   329,     0,   330,   331,
+     332,   333,   334,   335,  -191,   336,  -183,  -191,  -183,     0,
+    -183,  -183,     0,  -191,     0,     0,     0,     0,     0,     0,
+       0,  -191,     0,     0,     0,     0,     0,     0,     0,     0,
+    -191,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -191,
+       0,     0,     0,     0,     0,  -191,     0,     0,  -191,  -191,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -191,     0,     0,  -191,     0,  -191,  -191,     0,     0,     0,
+    -191,     0,  -191,  -191,     0,  -191,  -191,  -191,     0,     0,
+       0,     0,     0,     0,  -191,     0,  -191,     0,  -191,  -191,
+       0,     0,     0,  -191,  -191,  -191,     0,     0,     0,     0,
        0,     0,     0,  -191,     0,     0,  -191,  -191,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -191,     0,
-       0,  -191,     0,  -191,  -191,     0,     0,     0,  -191,     0,
-    -191,  -191,     0,  -191,  -191,  -191,     0,     0,     0,     0,
-       0,     0,  -191,     0,  -191,     0,  -191,  -191,     0,     0,
-       0,  -191,  -191,  -191,     0,     0,     0,     0,     0,     0,
-       0,  -191,     0,     0,  -191,  -191,     0,     0,  -191,  -191,
-    -191,  -191,     0,  -191,     0,     0,     0,  -191,     0,     0,
-    -191,  -191,     0,  -191,  -191,     0,     0,     0,  -191,  -191,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -191,  -191,  -191,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -191,  -191,  -191,
-    -191,  -191,     0,     0,  -191,  -191,     0,  -191,  -191,  -191,
-    -191,  -191,  -191,  -192,  -191,  -191,  -192,  -191,     0,  -191,
-    -191,     0,  -192,     0,     0,     0,     0,     0,     0,     0,
-    -192,     0,     0,     0,     0,     0,     0,     0,     0,  -192,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -192,     0,
-       0,     0,     0,     0,  -192,     0,     0,  -192,  -192,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -192,
-       0,     0,  -192,     0,  -192,  -192,     0,     0,     0,  -192,
-       0,  -192,  -192,     0,  -192,  -192,  -192,     0,     0,     0,
-       0,     0,     0,  -192,     0,  -192,     0,  -192,  -192,     0,
-       0,     0,  -192,  -192,  -192,     0,     0,     0,     0,     0,
-       0,     0,  -192,     0,     0,  -192,  -192,     0,     0,  -192,
-    -192,  -192,  -192,     0,  -192,     0,     0,     0,  -192,     0,
-       0,  -192,  -192,     0,  -192,  -192,     0,     0,     0,  -192,
+    -191,  -191,  -191,  -191,     0,  -191,     0,     0,     0,  -191,
+       0,     0,  -191,  -191,     0,  -191,  -191,     0,     0,     0,
+    -191,  -191,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -191,  -191,  -191,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -191,
+    -191,  -191,  -191,  -191,     0,     0,  -191,  -191,     0,  -191,
+    -191,  -191,  -191,  -191,  -191,  -192,  -191,  -191,  -192,  -191,
+       0,  -191,  -191,     0,  -192,     0,     0,     0,     0,     0,
+       0,     0,  -192,     0,     0,     0,     0,     0,     0,     0,
+       0,  -192,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -192,     0,     0,     0,     0,     0,  -192,     0,     0,  -192,
     -192,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -192,     0,     0,  -192,     0,  -192,  -192,     0,     0,
+       0,  -192,     0,  -192,  -192,     0,  -192,  -192,  -192,     0,
+       0,     0,     0,     0,     0,  -192,     0,  -192,     0,  -192,
+    -192,     0,     0,     0,  -192,  -192,  -192,     0,     0,     0,
+       0,     0,     0,     0,  -192,     0,     0,  -192,  -192,     0,
+       0,  -192,  -192,  -192,  -192,     0,  -192,     0,     0,     0,
+    -192,     0,     0,  -192,  -192,     0,  -192,  -192,     0,     0,
+       0,  -192,  -192,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -192,  -192,  -192,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -192,  -192,
-    -192,  -192,  -192,     0,     0,  -192,  -192,     0,  -192,  -192,
-    -192,  -192,  -192,  -192,  -193,  -192,  -192,  -193,  -192,     0,
-    -192,  -192,     0,  -193,     0,     0,     0,     0,     0,     0,
-       0,  -193,     0,     0,     0,     0,     0,     0,     0,     0,
-    -193,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -193,
-       0,     0,     0,     0,     0,  -193,     0,     0,  -193,  -193,
+       0,     0,     0,     0,     0,     0,     0,  -192,  -192,  -192,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -193,     0,     0,  -193,     0,  -193,  -193,     0,     0,     0,
-    -193,     0,  -193,  -193,     0,  -193,  -193,  -193,     0,     0,
-       0,     0,     0,     0,  -193,     0,  -193,     0,  -193,  -193,
-       0,     0,     0,  -193,  -193,  -193,     0,     0,     0,     0,
-       0,     0,     0,  -193,     0,     0,  -193,  -193,     0,     0,
-    -193,  -193,  -193,  -193,     0,  -193,     0,     0,     0,  -193,
-       0,     0,  -193,  -193,     0,  -193,  -193,     0,     0,     0,
-    -193,  -193,     0,     0,     0,     0,     0,     0,     0,     0,
+    -192,  -192,  -192,  -192,  -192,     0,     0,  -192,  -192,     0,
+    -192,  -192,  -192,  -192,  -192,  -192,  -193,  -192,  -192,  -193,
+    -192,     0,  -192,  -192,     0,  -193,     0,     0,     0,     0,
+       0,     0,     0,  -193,     0,     0,     0,     0,     0,     0,
+       0,     0,  -193,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -193,  -193,  -193,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -193,
-    -193,  -193,  -193,  -193,     0,     0,  -193,  -193,     0,  -193,
-    -193,  -193,  -193,  -193,  -193,  -206,  -193,  -193,  -206,  -193,
-       0,  -193,  -193,     0,  -206,     0,     0,     0,     0,     0,
-       0,     0,  -206,     0,     0,     0,     0,     0,     0,     0,
-       0,  -206,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -193,     0,     0,     0,     0,     0,  -193,     0,     0,
+    -193,  -193,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -193,     0,     0,  -193,     0,  -193,  -193,     0,
+       0,     0,  -193,     0,  -193,  -193,     0,  -193,  -193,  -193,
+       0,     0,     0,     0,     0,     0,  -193,     0,  -193,     0,
+    -193,  -193,     0,     0,     0,  -193,  -193,  -193,     0,     0,
+       0,     0,     0,     0,     0,  -193,     0,     0,  -193,  -193,
+       0,     0,  -193,  -193,  -193,  -193,     0,  -193,     0,     0,
+       0,  -193,     0,     0,  -193,  -193,     0,  -193,  -193,     0,
+       0,     0,  -193,  -193,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -206,     0,     0,     0,     0,     0,  -206,     0,     0,  -206,
-    -206,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -206,     0,     0,  -206,     0,  -206,  -206,     0,     0,
-       0,  -206,     0,  -206,  -206,     0,  -206,  -206,  -206,     0,
-       0,     0,     0,     0,     0,  -206,     0,  -206,     0,  -206,
-    -206,     0,     0,     0,  -206,  -206,  -206,     0,     0,     0,
-       0,     0,     0,     0,  -206,     0,     0,  -206,  -206,     0,
-       0,  -206,  -206,  -206,  -206,     0,  -206,     0,     0,     0,
-    -206,     0,     0,  -206,  -206,     0,  -206,  -206,     0,     0,
-       0,  -206,  -206,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -206,  -206,  -206,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -206,  -206,  -206,  -206,  -206,     0,     0,  -206,  -206,     0,
-    -206,  -206,  -206,  -206,  -206,  -206,  -194,  -206,  -206,  -194,
-    -206,     0,  -206,  -206,     0,  -194,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -193,  -193,
+    -193,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -193,  -193,  -193,  -193,  -193,     0,     0,  -193,  -193,
+       0,  -193,  -193,  -193,  -193,  -193,  -193,  -194,  -193,  -193,
+    -194,  -193,     0,  -193,  -193,     0,  -194,     0,     0,     0,
+       0,     0,     0,     0,  -194,     0,     0,     0,     0,     0,
        0,     0,     0,  -194,     0,     0,     0,     0,     0,     0,
-       0,     0,  -194,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -194,     0,     0,     0,     0,     0,  -194,     0,     0,
+       0,     0,  -194,     0,     0,     0,     0,     0,  -194,     0,
+       0,  -194,  -194,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -194,     0,     0,  -194,     0,  -194,  -194,
+       0,     0,     0,  -194,     0,  -194,  -194,     0,  -194,  -194,
+    -194,     0,     0,     0,     0,     0,     0,  -194,     0,  -194,
+       0,  -194,  -194,     0,     0,     0,  -194,  -194,  -194,     0,
+       0,     0,     0,     0,     0,     0,  -194,     0,     0,  -194,
+    -194,     0,     0,  -194,  -194,  -194,  -194,     0,  -194,     0,
+       0,     0,  -194,     0,     0,  -194,  -194,     0,  -194,  -194,
+       0,     0,     0,  -194,  -194,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -194,
     -194,  -194,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -194,     0,     0,  -194,     0,  -194,  -194,     0,
-       0,     0,  -194,     0,  -194,  -194,     0,  -194,  -194,  -194,
-       0,     0,     0,     0,     0,     0,  -194,     0,  -194,     0,
-    -194,  -194,     0,     0,     0,  -194,  -194,  -194,     0,     0,
-       0,     0,     0,     0,     0,  -194,     0,     0,  -194,  -194,
-       0,     0,  -194,  -194,  -194,  -194,     0,  -194,     0,     0,
-       0,  -194,     0,     0,  -194,  -194,     0,  -194,  -194,     0,
-       0,     0,  -194,  -194,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -194,  -194,
-    -194,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -194,  -194,  -194,  -194,  -194,     0,     0,  -194,  -194,
-       0,  -194,  -194,  -194,  -194,  -194,  -194,  -195,  -194,  -194,
-    -195,  -194,     0,  -194,  -194,     0,  -195,     0,     0,     0,
+       0,     0,  -194,  -194,  -194,  -194,  -194,     0,     0,  -194,
+    -194,     0,  -194,  -194,  -194,  -194,  -194,  -194,  -207,  -194,
+    -194,  -207,  -194,     0,  -194,  -194,     0,  -207,     0,     0,
+       0,     0,     0,     0,     0,  -207,     0,     0,     0,     0,
+       0,     0,     0,     0,  -207,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -207,     0,     0,     0,     0,     0,  -207,
+       0,     0,  -207,  -207,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -207,     0,     0,  -207,     0,  -207,
+    -207,     0,     0,     0,  -207,     0,  -207,  -207,     0,  -207,
+    -207,  -207,     0,     0,     0,     0,     0,     0,  -207,     0,
+    -207,     0,  -207,  -207,     0,     0,     0,  -207,  -207,  -207,
+       0,     0,     0,     0,     0,     0,     0,  -207,     0,     0,
+    -207,  -207,     0,     0,  -207,  -207,  -207,  -207,     0,  -207,
+       0,     0,     0,  -207,     0,     0,  -207,  -207,     0,  -207,
+    -207,     0,     0,     0,  -207,  -207,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -207,  -207,  -207,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -207,  -207,  -207,  -207,  -207,     0,     0,
+    -207,  -207,     0,  -207,  -207,  -207,  -207,  -207,  -207,  -195,
+    -207,  -207,  -195,  -207,     0,  -207,  -207,     0,  -195,     0,
+       0,     0,     0,     0,     0,     0,  -195,     0,     0,     0,
+       0,     0,     0,     0,     0,  -195,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,  -195,     0,     0,     0,     0,     0,
-       0,     0,     0,  -195,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -195,     0,     0,     0,     0,     0,  -195,     0,
-       0,  -195,  -195,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -195,     0,     0,  -195,     0,  -195,  -195,
-       0,     0,     0,  -195,     0,  -195,  -195,     0,  -195,  -195,
-    -195,     0,     0,     0,     0,     0,     0,  -195,     0,  -195,
-       0,  -195,  -195,     0,     0,     0,  -195,  -195,  -195,     0,
-       0,     0,     0,     0,     0,     0,  -195,     0,     0,  -195,
-    -195,     0,     0,  -195,  -195,  -195,  -195,     0,  -195,     0,
-       0,     0,  -195,     0,     0,  -195,  -195,     0,  -195,  -195,
-       0,     0,     0,  -195,  -195,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -195,
-    -195,  -195,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -195,  -195,  -195,  -195,  -195,     0,     0,  -195,
-    -195,     0,  -195,  -195,  -195,  -195,  -195,  -195,  -196,  -195,
-    -195,  -196,  -195,     0,  -195,  -195,     0,  -196,     0,     0,
-       0,     0,     0,     0,     0,  -196,     0,     0,     0,     0,
-       0,     0,     0,     0,  -196,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -196,     0,     0,     0,     0,     0,  -196,
-       0,     0,  -196,  -196,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -196,     0,     0,  -196,     0,  -196,
-    -196,     0,     0,     0,  -196,     0,  -196,  -196,     0,  -196,
-    -196,  -196,     0,     0,     0,     0,     0,     0,  -196,     0,
-    -196,     0,  -196,  -196,     0,     0,     0,  -196,  -196,  -196,
+    -195,     0,     0,  -195,  -195,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -195,     0,     0,  -195,     0,
+    -195,  -195,     0,     0,     0,  -195,     0,  -195,  -195,     0,
+    -195,  -195,  -195,     0,     0,     0,     0,     0,     0,  -195,
+       0,  -195,     0,  -195,  -195,     0,     0,     0,  -195,  -195,
+    -195,     0,     0,     0,     0,     0,     0,     0,  -195,     0,
+       0,  -195,  -195,     0,     0,  -195,  -195,  -195,  -195,     0,
+    -195,     0,     0,     0,  -195,     0,     0,  -195,  -195,     0,
+    -195,  -195,     0,     0,     0,  -195,  -195,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -195,  -195,  -195,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -195,  -195,  -195,  -195,  -195,     0,
+       0,  -195,  -195,     0,  -195,  -195,  -195,  -195,  -195,  -195,
+    -196,  -195,  -195,  -196,  -195,     0,  -195,  -195,     0,  -196,
        0,     0,     0,     0,     0,     0,     0,  -196,     0,     0,
-    -196,  -196,     0,     0,  -196,  -196,  -196,  -196,     0,  -196,
-       0,     0,     0,  -196,     0,     0,  -196,  -196,     0,  -196,
-    -196,     0,     0,     0,  -196,  -196,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -196,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -196,     0,     0,     0,     0,
+       0,  -196,     0,     0,  -196,  -196,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -196,     0,     0,  -196,
+       0,  -196,  -196,     0,     0,     0,  -196,     0,  -196,  -196,
+       0,  -196,  -196,  -196,     0,     0,     0,     0,     0,     0,
+    -196,     0,  -196,     0,  -196,  -196,     0,     0,     0,  -196,
+    -196,  -196,     0,     0,     0,     0,     0,     0,     0,  -196,
+       0,     0,  -196,  -196,     0,     0,  -196,  -196,  -196,  -196,
+       0,  -196,     0,     0,     0,  -196,     0,     0,  -196,  -196,
+       0,  -196,  -196,     0,     0,     0,  -196,  -196,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -196,  -196,  -196,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -196,  -196,  -196,  -196,  -196,
+       0,     0,  -196,  -196,     0,  -196,  -196,  -196,  -196,  -196,
+    -196,  -197,  -196,  -196,  -197,  -196,     0,  -196,  -196,     0,
+    -197,     0,     0,     0,     0,     0,     0,     0,  -197,     0,
+       0,     0,     0,     0,     0,     0,     0,  -197,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -196,  -196,  -196,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -196,  -196,  -196,  -196,  -196,     0,     0,
-    -196,  -196,     0,  -196,  -196,  -196,  -196,  -196,  -196,  -197,
-    -196,  -196,  -197,  -196,     0,  -196,  -196,     0,  -197,     0,
        0,     0,     0,     0,     0,     0,  -197,     0,     0,     0,
-       0,     0,     0,     0,     0,  -197,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -197,     0,     0,     0,     0,     0,
-    -197,     0,     0,  -197,  -197,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -197,     0,     0,  -197,     0,
-    -197,  -197,     0,     0,     0,  -197,     0,  -197,  -197,     0,
-    -197,  -197,  -197,     0,     0,     0,     0,     0,     0,  -197,
-       0,  -197,     0,  -197,  -197,     0,     0,     0,  -197,  -197,
-    -197,     0,     0,     0,     0,     0,     0,     0,  -197,     0,
-       0,  -197,  -197,     0,     0,  -197,  -197,  -197,  -197,     0,
-    -197,     0,     0,     0,  -197,     0,     0,  -197,  -197,     0,
-    -197,  -197,     0,     0,     0,  -197,  -197,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -197,  -197,  -197,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -197,  -197,  -197,  -197,  -197,     0,
-       0,  -197,  -197,     0,  -197,  -197,  -197,  -197,  -197,  -197,
-    -189,  -197,  -197,  -189,  -197,     0,  -197,  -197,     0,  -189,
-       0,     0,     0,     0,     0,     0,     0,  -189,     0,     0,
-       0,     0,     0,     0,     0,     0,  -189,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -189,     0,     0,     0,     0,
-       0,  -189,     0,     0,  -189,  -189,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -189,     0,     0,  -189,
-       0,  -189,  -189,     0,     0,     0,  -189,     0,  -189,  -189,
-       0,  -189,  -189,  -189,     0,     0,     0,     0,     0,     0,
-    -189,     0,  -189,     0,  -189,  -189,     0,     0,     0,  -189,
-    -189,  -189,     0,     0,     0,     0,     0,     0,     0,  -189,
-       0,     0,  -189,  -189,     0,     0,  -189,  -189,  -189,  -189,
-       0,  -189,     0,     0,     0,  -189,     0,     0,  -189,  -189,
-       0,  -189,  -189,     0,     0,     0,  -189,  -189,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -189,  -189,  -189,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -189,  -189,  -189,  -189,  -189,
-       0,     0,  -189,  -189,     0,  -189,  -189,  -189,  -189,  -189,
-    -189,  -199,  -189,  -189,  -199,  -189,     0,  -189,  -189,     0,
-    -199,     0,     0,     0,     0,     0,     0,     0,  -199,     0,
-       0,     0,     0,     0,     0,     0,     0,  -199,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -199,     0,     0,     0,
-       0,     0,  -199,     0,     0,  -199,  -199,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -199,     0,     0,
-    -199,     0,  -199,  -199,     0,     0,     0,  -199,     0,  -199,
-    -199,     0,  -199,  -199,  -199,     0,     0,     0,     0,     0,
-       0,  -199,     0,  -199,     0,  -199,  -199,     0,     0,     0,
-    -199,  -199,  -199,     0,     0,     0,     0,     0,     0,     0,
-    -199,     0,     0,  -199,  -199,     0,     0,  -199,  -199,  -199,
-    -199,     0,  -199,     0,     0,     0,  -199,     0,     0,  -199,
-    -199,     0,  -199,  -199,     0,     0,     0,  -199,  -199,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -199,  -199,  -199,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -199,  -199,  -199,  -199,
-    -199,     0,     0,  -199,  -199,     0,  -199,  -199,  -199,  -199,
-    -199,  -199,  -200,  -199,  -199,  -200,  -199,     0,  -199,  -199,
-       0,  -200,     0,     0,     0,     0,     0,     0,     0,  -200,
-       0,     0,     0,     0,     0,     0,     0,     0,  -200,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -200,     0,     0,
+       0,     0,  -197,     0,     0,  -197,  -197,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -197,     0,     0,
+    -197,     0,  -197,  -197,     0,     0,     0,  -197,     0,  -197,
+    -197,     0,  -197,  -197,  -197,     0,     0,     0,     0,     0,
+       0,  -197,     0,  -197,     0,  -197,  -197,     0,     0,     0,
+    -197,  -197,  -197,     0,     0,     0,     0,     0,     0,     0,
+    -197,     0,     0,  -197,  -197,     0,     0,  -197,  -197,  -197,
+    -197,     0,  -197,     0,     0,     0,  -197,     0,     0,  -197,
+    -197,     0,  -197,  -197,     0,     0,     0,  -197,  -197,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -197,  -197,  -197,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -197,  -197,  -197,  -197,
+    -197,     0,     0,  -197,  -197,     0,  -197,  -197,  -197,  -197,
+    -197,  -197,  -198,  -197,  -197,  -198,  -197,     0,  -197,  -197,
+       0,  -198,     0,     0,     0,     0,     0,     0,     0,  -198,
+       0,     0,     0,     0,     0,     0,     0,     0,  -198,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -198,     0,     0,
+       0,     0,     0,  -198,     0,     0,  -198,  -198,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -198,     0,
+       0,  -198,     0,  -198,  -198,     0,     0,     0,  -198,     0,
+    -198,  -198,     0,  -198,  -198,  -198,     0,     0,     0,     0,
+       0,     0,  -198,     0,  -198,     0,  -198,  -198,     0,     0,
+       0,  -198,  -198,  -198,     0,     0,     0,     0,     0,     0,
+       0,  -198,     0,     0,  -198,  -198,     0,     0,  -198,  -198,
+    -198,  -198,     0,  -198,     0,     0,     0,  -198,     0,     0,
+    -198,  -198,     0,  -198,  -198,     0,     0,     0,  -198,  -198,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -198,  -198,  -198,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -198,  -198,  -198,
+    -198,  -198,     0,     0,  -198,  -198,     0,  -198,  -198,  -198,
+    -198,  -198,  -198,  -190,  -198,  -198,  -190,  -198,     0,  -198,
+    -198,     0,  -190,     0,     0,     0,     0,     0,     0,     0,
+    -190,     0,     0,     0,     0,     0,     0,     0,     0,  -190,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -190,     0,
+       0,     0,     0,     0,  -190,     0,     0,  -190,  -190,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -190,
+       0,     0,  -190,     0,  -190,  -190,     0,     0,     0,  -190,
+       0,  -190,  -190,     0,  -190,  -190,  -190,     0,     0,     0,
+       0,     0,     0,  -190,     0,  -190,     0,  -190,  -190,     0,
+       0,     0,  -190,  -190,  -190,     0,     0,     0,     0,     0,
+       0,     0,  -190,     0,     0,  -190,  -190,     0,     0,  -190,
+    -190,  -190,  -190,     0,  -190,     0,     0,     0,  -190,     0,
+       0,  -190,  -190,     0,  -190,  -190,     0,     0,     0,  -190,
+    -190,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -190,  -190,  -190,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -190,  -190,
+    -190,  -190,  -190,     0,     0,  -190,  -190,     0,  -190,  -190,
+    -190,  -190,  -190,  -190,  -200,  -190,  -190,  -200,  -190,     0,
+    -190,  -190,     0,  -200,     0,     0,     0,     0,     0,     0,
+       0,  -200,     0,     0,     0,     0,     0,     0,     0,     0,
+    -200,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -200,
+       0,     0,     0,     0,     0,  -200,     0,     0,  -200,  -200,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -200,     0,     0,  -200,     0,  -200,  -200,     0,     0,     0,
+    -200,     0,  -200,  -200,     0,  -200,  -200,  -200,     0,     0,
+       0,     0,     0,     0,  -200,     0,  -200,     0,  -200,  -200,
+       0,     0,     0,  -200,  -200,  -200,     0,     0,     0,     0,
        0,     0,     0,  -200,     0,     0,  -200,  -200,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -200,     0,
-       0,  -200,     0,  -200,  -200,     0,     0,     0,  -200,     0,
-    -200,  -200,     0,  -200,  -200,  -200,     0,     0,     0,     0,
-       0,     0,  -200,     0,  -200,     0,  -200,  -200,     0,     0,
-       0,  -200,  -200,  -200,     0,     0,     0,     0,     0,     0,
-       0,  -200,     0,     0,  -200,  -200,     0,     0,  -200,  -200,
-    -200,  -200,     0,  -200,     0,     0,     0,  -200,     0,     0,
-    -200,  -200,     0,  -200,  -200,     0,     0,     0,  -200,  -200,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -200,  -200,  -200,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -200,  -200,  -200,
-    -200,  -200,     0,     0,  -200,  -200,     0,  -200,  -200,  -200,
-    -200,  -200,  -200,  -296,  -200,  -200,  -296,  -200,     0,  -200,
-    -200,     0,  -296,     0,     0,     0,     0,     0,     0,     0,
-    -296,     0,     0,     0,     0,     0,     0,     0,     0,  -296,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -296,     0,
-       0,     0,     0,     0,  -296,     0,     0,  -296,  -296,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -296,
-       0,     0,  -296,     0,  -296,  -296,     0,     0,     0,  -296,
-       0,  -296,  -296,     0,  -296,  -296,  -296,     0,     0,     0,
-       0,     0,     0,  -296,     0,  -296,     0,  -296,  -296,     0,
-       0,     0,  -296,  -296,  -296,     0,     0,     0,     0,     0,
-       0,     0,  -296,     0,     0,  -296,  -296,     0,     0,  -296,
-    -296,  -296,  -296,     0,  -296,     0,     0,     0,  -296,     0,
-       0,  -296,  -296,     0,  -296,  -296,     0,     0,     0,  -296,
-    -296,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -296,  -296,  -296,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -296,  -296,
-    -296,  -296,  -296,     0,     0,  -296,  -296,     0,  -296,  -296,
-    -296,  -296,  -296,  -296,  -202,  -296,  -296,  -202,  -296,     0,
-    -296,  -296,     0,  -202,     0,     0,     0,     0,     0,     0,
-       0,  -202,     0,     0,     0,     0,     0,     0,     0,     0,
-    -202,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -202,
-       0,     0,     0,     0,     0,  -202,     0,     0,   311,  -202,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -202,     0,     0,  -202,     0,  -202,  -202,     0,     0,     0,
-    -202,     0,  -202,  -202,     0,  -202,  -202,  -202,     0,     0,
-       0,     0,     0,     0,  -202,     0,  -202,     0,  -202,  -202,
-       0,     0,     0,  -202,  -202,   312,     0,     0,     0,     0,
-       0,     0,     0,  -202,     0,     0,  -202,  -202,     0,     0,
-    -202,  -202,  -202,  -202,     0,   414,     0,     0,     0,  -202,
-       0,     0,  -202,   315,     0,  -202,  -202,     0,     0,     0,
-     316,   317,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -202,  -202,  -202,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,   318,
-     319,   320,   321,   322,     0,     0,   323,   324,     0,   325,
-     326,   327,   328,   329,   330,  -201,   331,  -202,  -201,  -202,
-       0,  -202,  -202,     0,  -201,     0,     0,     0,     0,     0,
+    -200,  -200,  -200,  -200,     0,  -200,     0,     0,     0,  -200,
+       0,     0,  -200,  -200,     0,  -200,  -200,     0,     0,     0,
+    -200,  -200,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -200,  -200,  -200,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -200,
+    -200,  -200,  -200,  -200,     0,     0,  -200,  -200,     0,  -200,
+    -200,  -200,  -200,  -200,  -200,  -201,  -200,  -200,  -201,  -200,
+       0,  -200,  -200,     0,  -201,     0,     0,     0,     0,     0,
        0,     0,  -201,     0,     0,     0,     0,     0,     0,     0,
        0,  -201,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
@@ -2224,1435 +2171,1510 @@ static const yytype_int16 yytable[] =
        0,     0,     0,     0,  -201,     0,     0,  -201,  -201,     0,
        0,  -201,  -201,  -201,  -201,     0,  -201,     0,     0,     0,
     -201,     0,     0,  -201,  -201,     0,  -201,  -201,     0,     0,
-       0,   316,  -201,     0,     0,     0,     0,     0,     0,     0,
+       0,  -201,  -201,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,  -201,  -201,  -201,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
     -201,  -201,  -201,  -201,  -201,     0,     0,  -201,  -201,     0,
-    -201,  -201,   327,   328,   329,   330,  -203,   331,  -201,  -203,
-    -201,     0,  -201,  -201,     0,  -203,     0,     0,     0,     0,
+    -201,  -201,  -201,  -201,  -201,  -201,  -300,  -201,  -201,  -300,
+    -201,     0,  -201,  -201,     0,  -300,     0,     0,     0,     0,
+       0,     0,     0,  -300,     0,     0,     0,     0,     0,     0,
+       0,     0,  -300,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -300,     0,     0,     0,     0,     0,  -300,     0,     0,
+    -300,  -300,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -300,     0,     0,  -300,     0,  -300,  -300,     0,
+       0,     0,  -300,     0,  -300,  -300,     0,  -300,  -300,  -300,
+       0,     0,     0,     0,     0,     0,  -300,     0,  -300,     0,
+    -300,  -300,     0,     0,     0,  -300,  -300,  -300,     0,     0,
+       0,     0,     0,     0,     0,  -300,     0,     0,  -300,  -300,
+       0,     0,  -300,  -300,  -300,  -300,     0,  -300,     0,     0,
+       0,  -300,     0,     0,  -300,  -300,     0,  -300,  -300,     0,
+       0,     0,  -300,  -300,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -300,  -300,
+    -300,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -300,  -300,  -300,  -300,  -300,     0,     0,  -300,  -300,
+       0,  -300,  -300,  -300,  -300,  -300,  -300,  -203,  -300,  -300,
+    -203,  -300,     0,  -300,  -300,     0,  -203,     0,     0,     0,
+       0,     0,     0,     0,   315,     0,     0,     0,     0,     0,
        0,     0,     0,  -203,     0,     0,     0,     0,     0,     0,
-       0,     0,  -203,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -203,     0,     0,     0,     0,     0,  -203,     0,     0,
+       0,     0,  -203,     0,     0,     0,     0,     0,  -203,     0,
+       0,   316,  -203,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -203,     0,     0,  -203,     0,  -203,  -203,
+       0,     0,     0,  -203,     0,  -203,  -203,     0,  -203,  -203,
+    -203,     0,     0,     0,     0,     0,     0,  -203,     0,  -203,
+       0,  -203,  -203,     0,     0,     0,  -203,  -203,   317,     0,
+       0,     0,     0,     0,     0,     0,  -203,     0,     0,  -203,
+    -203,     0,     0,  -203,  -203,  -203,  -203,     0,   318,     0,
+       0,     0,  -203,     0,     0,   319,   320,     0,  -203,  -203,
+       0,     0,     0,   321,   322,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -203,
     -203,  -203,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -203,     0,     0,  -203,     0,  -203,  -203,     0,
-       0,     0,  -203,     0,  -203,  -203,     0,  -203,  -203,  -203,
-       0,     0,     0,     0,     0,     0,  -203,     0,  -203,     0,
-    -203,  -203,     0,     0,     0,  -203,  -203,  -203,     0,     0,
-       0,     0,     0,     0,     0,  -203,     0,     0,  -203,  -203,
-       0,     0,  -203,  -203,  -203,  -203,     0,  -203,     0,     0,
-       0,  -203,     0,     0,  -203,  -203,     0,  -203,  -203,     0,
-       0,     0,  -203,  -203,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -203,  -203,
-    -203,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -203,  -203,  -203,  -203,  -203,     0,     0,  -203,  -203,
-       0,  -203,  -203,  -203,  -203,  -203,  -203,  -279,  -203,  -203,
-    -279,  -203,     0,  -203,  -203,     0,  -279,     0,     0,     0,
-       0,     0,     0,     0,  -279,     0,     0,     0,     0,     0,
-       0,     0,     0,  -279,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -279,     0,     0,     0,     0,     0,  -279,     0,
-       0,  -279,  -279,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -279,     0,     0,  -279,     0,  -279,  -279,
-       0,     0,     0,  -279,     0,  -279,  -279,     0,  -279,  -279,
-    -279,     0,     0,     0,     0,     0,     0,  -279,     0,  -279,
-       0,  -279,  -279,     0,     0,     0,  -279,  -279,  -279,     0,
-       0,     0,     0,     0,     0,     0,  -279,     0,     0,  -279,
-    -279,     0,     0,  -279,  -279,  -279,  -279,     0,  -279,     0,
-       0,     0,  -279,     0,     0,  -279,  -279,     0,  -279,  -279,
-       0,     0,     0,  -279,  -279,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -279,
-    -279,  -279,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -279,  -279,  -279,  -279,  -279,     0,     0,  -279,
-    -279,     0,  -279,  -279,  -279,  -279,  -279,  -279,  -225,  -279,
-    -279,  -225,  -279,     0,  -279,  -279,     0,  -225,     0,     0,
-       0,     0,     0,     0,     0,  -225,     0,     0,     0,     0,
-       0,     0,     0,     0,  -225,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -225,     0,     0,     0,     0,     0,  -225,
-       0,     0,  -225,  -225,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -225,     0,     0,  -225,     0,  -225,
-    -225,     0,     0,     0,  -225,     0,  -225,  -225,     0,  -225,
-    -225,  -225,     0,     0,     0,     0,     0,     0,  -225,     0,
-    -225,     0,  -225,  -225,     0,     0,     0,  -225,  -225,  -225,
-       0,     0,     0,     0,     0,     0,     0,  -225,     0,     0,
-    -225,  -225,     0,     0,  -225,  -225,  -225,  -225,     0,  -225,
-       0,     0,     0,  -225,     0,     0,  -225,  -225,     0,  -225,
-    -225,     0,     0,     0,  -225,  -225,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -225,  -225,  -225,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -225,  -225,  -225,  -225,  -225,     0,     0,
-    -225,  -225,     0,  -225,  -225,  -225,  -225,  -225,  -225,  -198,
-    -225,  -225,  -198,  -225,     0,  -225,  -225,     0,  -198,     0,
-       0,     0,     0,     0,     0,     0,  -198,     0,     0,     0,
-       0,     0,     0,     0,     0,  -198,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -198,     0,     0,     0,     0,     0,
-    -198,     0,     0,  -198,  -198,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -198,     0,     0,  -198,     0,
-    -198,  -198,     0,     0,     0,  -198,     0,  -198,  -198,     0,
-    -198,  -198,  -198,     0,     0,     0,     0,     0,     0,  -198,
-       0,  -198,     0,  -198,  -198,     0,     0,     0,  -198,  -198,
-    -198,     0,     0,     0,     0,     0,     0,     0,  -198,     0,
-       0,  -198,  -198,     0,     0,  -198,  -198,  -198,  -198,     0,
-    -198,     0,     0,     0,  -198,     0,     0,  -198,  -198,     0,
-    -198,  -198,     0,     0,     0,  -198,  -198,     0,     0,     0,
+       0,     0,   323,   324,   325,   326,   327,     0,     0,   328,
+     329,     0,   330,   331,   332,   333,   334,   335,  -202,   336,
+    -203,  -202,  -203,     0,  -203,  -203,     0,  -202,     0,     0,
+       0,     0,     0,     0,     0,  -202,     0,     0,     0,     0,
+       0,     0,     0,     0,  -202,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -202,     0,     0,     0,     0,     0,  -202,
+       0,     0,  -202,  -202,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -202,     0,     0,  -202,     0,  -202,
+    -202,     0,     0,     0,  -202,     0,  -202,  -202,     0,  -202,
+    -202,  -202,     0,     0,     0,     0,     0,     0,  -202,     0,
+    -202,     0,  -202,  -202,     0,     0,     0,  -202,  -202,  -202,
+       0,     0,     0,     0,     0,     0,     0,  -202,     0,     0,
+    -202,  -202,     0,     0,  -202,  -202,  -202,  -202,     0,  -202,
+       0,     0,     0,  -202,     0,     0,  -202,  -202,     0,  -202,
+    -202,     0,     0,     0,   321,  -202,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -202,  -202,  -202,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -202,  -202,  -202,  -202,  -202,     0,     0,
+    -202,  -202,     0,  -202,  -202,   332,   333,   334,   335,  -204,
+     336,  -202,  -204,  -202,     0,  -202,  -202,     0,  -204,     0,
+       0,     0,     0,     0,     0,     0,  -204,     0,     0,     0,
+       0,     0,     0,     0,     0,  -204,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -204,     0,     0,     0,     0,     0,
+    -204,     0,     0,  -204,  -204,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -204,     0,     0,  -204,     0,
+    -204,  -204,     0,     0,     0,  -204,     0,  -204,  -204,     0,
+    -204,  -204,  -204,     0,     0,     0,     0,     0,     0,  -204,
+       0,  -204,     0,  -204,  -204,     0,     0,     0,  -204,  -204,
+    -204,     0,     0,     0,     0,     0,     0,     0,  -204,     0,
+       0,  -204,  -204,     0,     0,  -204,  -204,  -204,  -204,     0,
+    -204,     0,     0,     0,  -204,     0,     0,  -204,  -204,     0,
+    -204,  -204,     0,     0,     0,  -204,  -204,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -198,  -198,  -198,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -198,  -198,  -198,  -198,  -198,     0,
-       0,  -198,  -198,     0,  -198,  -198,  -198,  -198,  -198,  -198,
-    -188,  -198,  -198,  -188,  -198,     0,  -198,  -198,     0,  -188,
-       0,     0,     0,     0,     0,     0,     0,  -188,     0,     0,
-       0,     0,     0,     0,     0,     0,  -188,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -188,     0,     0,     0,     0,
-       0,  -188,     0,     0,  -188,  -188,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -188,     0,     0,  -188,
-       0,  -188,  -188,     0,     0,     0,  -188,     0,  -188,  -188,
-       0,  -188,  -188,  -188,     0,     0,     0,     0,     0,     0,
-    -188,     0,  -188,     0,  -188,  -188,     0,     0,     0,  -188,
-    -188,  -188,     0,     0,     0,     0,     0,     0,     0,  -188,
-       0,     0,  -188,  -188,     0,     0,  -188,  -188,  -188,  -188,
-       0,  -188,     0,     0,     0,  -188,     0,     0,  -188,  -188,
-       0,  -188,  -188,     0,     0,     0,  -188,  -188,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -188,  -188,  -188,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -188,  -188,  -188,  -188,  -188,
-       0,     0,  -188,  -188,     0,  -188,  -188,  -188,  -188,  -188,
-    -188,  -204,  -188,  -188,  -204,  -188,     0,  -188,  -188,     0,
-    -204,     0,     0,     0,     0,     0,     0,     0,  -204,     0,
-       0,     0,     0,     0,     0,     0,     0,  -204,     0,     0,
+       0,  -204,  -204,  -204,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -204,  -204,  -204,  -204,  -204,     0,
+       0,  -204,  -204,     0,  -204,  -204,  -204,  -204,  -204,  -204,
+    -283,  -204,  -204,  -283,  -204,     0,  -204,  -204,     0,  -283,
+       0,     0,     0,     0,     0,     0,     0,  -283,     0,     0,
+       0,     0,     0,     0,     0,     0,  -283,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -204,     0,     0,     0,
-       0,     0,  -204,     0,     0,  -204,  -204,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -204,     0,     0,
-    -204,     0,  -204,  -204,     0,     0,     0,  -204,     0,  -204,
-    -204,     0,  -204,  -204,  -204,     0,     0,     0,     0,     0,
-       0,  -204,     0,  -204,     0,  -204,  -204,     0,     0,     0,
-    -204,  -204,  -204,     0,     0,     0,     0,     0,     0,     0,
-    -204,     0,     0,  -204,  -204,     0,     0,  -204,  -204,  -204,
-    -204,     0,  -204,     0,     0,     0,  -204,     0,     0,  -204,
-    -204,     0,  -204,  -204,     0,     0,     0,  -204,  -204,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -204,  -204,  -204,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -204,  -204,  -204,  -204,
-    -204,     0,     0,  -204,  -204,     0,  -204,  -204,  -204,  -204,
-    -204,  -204,  -216,  -204,  -204,  -216,  -204,     0,  -204,  -204,
-       0,  -216,     0,     0,     0,     0,     0,     0,     0,  -216,
-       0,     0,     0,     0,     0,     0,     0,     0,  -216,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -216,     0,     0,
-       0,     0,     0,  -216,     0,     0,  -216,  -216,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -216,     0,
-       0,  -216,     0,  -216,  -216,     0,     0,     0,  -216,     0,
-    -216,  -216,     0,  -216,  -216,  -216,     0,     0,     0,     0,
-       0,     0,  -216,     0,  -216,     0,  -216,  -216,     0,     0,
-       0,  -216,  -216,  -216,     0,     0,     0,     0,     0,     0,
-       0,  -216,     0,     0,  -216,  -216,     0,     0,  -216,  -216,
-    -216,  -216,     0,  -216,     0,     0,     0,  -216,     0,     0,
-    -216,  -216,     0,  -216,  -216,     0,     0,     0,  -216,  -216,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -216,  -216,  -216,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -216,  -216,  -216,
-    -216,  -216,     0,     0,  -216,  -216,     0,  -216,  -216,  -216,
-    -216,  -216,  -216,  -208,   331,  -216,  -208,  -216,     0,  -216,
-    -216,     0,  -208,     0,     0,     0,     0,     0,     0,     0,
-    -208,     0,     0,     0,     0,     0,     0,     0,     0,  -208,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -208,     0,
-       0,     0,     0,     0,  -208,     0,     0,  -208,  -208,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -208,
-       0,     0,  -208,     0,  -208,  -208,     0,     0,     0,  -208,
-       0,  -208,  -208,     0,  -208,  -208,  -208,     0,     0,     0,
-       0,     0,     0,  -208,     0,  -208,     0,  -208,  -208,     0,
-       0,     0,  -208,  -208,  -208,     0,     0,     0,     0,     0,
-       0,     0,  -208,     0,     0,  -208,  -208,     0,     0,  -208,
-    -208,  -208,  -208,     0,  -208,     0,     0,     0,  -208,     0,
-       0,  -208,  -208,     0,  -208,  -208,     0,     0,     0,   316,
-    -208,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -208,  -208,  -208,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -208,  -208,
-    -208,  -208,  -208,     0,     0,  -208,  -208,     0,  -208,  -208,
-     327,   328,   329,   330,  -207,   331,  -208,  -207,  -208,     0,
-    -208,  -208,     0,  -207,     0,     0,     0,     0,     0,     0,
-       0,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
-    -207,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -207,
-       0,     0,     0,     0,     0,  -207,     0,     0,  -207,  -207,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -207,     0,     0,  -207,     0,  -207,  -207,     0,     0,     0,
-    -207,     0,  -207,  -207,     0,  -207,  -207,  -207,     0,     0,
-       0,     0,     0,     0,  -207,     0,  -207,     0,  -207,  -207,
-       0,     0,     0,  -207,  -207,  -207,     0,     0,     0,     0,
-       0,     0,     0,  -207,     0,     0,  -207,  -207,     0,     0,
-    -207,  -207,  -207,  -207,     0,  -207,     0,     0,     0,  -207,
-       0,     0,  -207,  -207,     0,  -207,  -207,     0,     0,     0,
-     316,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -207,  -207,  -207,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -207,
-    -207,  -207,  -207,  -207,     0,     0,  -207,  -207,     0,  -207,
-    -207,   327,   328,   329,   330,  -210,   331,  -207,  -210,  -207,
-       0,  -207,  -207,     0,  -210,     0,     0,     0,     0,     0,
-       0,     0,  -210,     0,     0,     0,     0,     0,     0,     0,
-       0,  -210,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -210,     0,     0,     0,     0,     0,  -210,     0,     0,  -210,
-    -210,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -210,     0,     0,  -210,     0,  -210,  -210,     0,     0,
-       0,  -210,     0,  -210,  -210,     0,  -210,  -210,  -210,     0,
-       0,     0,     0,     0,     0,  -210,     0,  -210,     0,  -210,
-    -210,     0,     0,     0,  -210,  -210,  -210,     0,     0,     0,
-       0,     0,     0,     0,  -210,     0,     0,  -210,  -210,     0,
-       0,  -210,  -210,  -210,  -210,     0,  -210,     0,     0,     0,
-    -210,     0,     0,  -210,  -210,     0,  -210,  -210,     0,     0,
-       0,   316,  -210,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -210,  -210,  -210,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -210,  -210,  -210,  -210,  -210,     0,     0,  -210,  -210,     0,
-    -210,  -210,  -210,  -210,  -210,   330,  -209,   331,  -210,  -209,
-    -210,     0,  -210,  -210,     0,  -209,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -283,     0,     0,     0,     0,
+       0,  -283,     0,     0,  -283,  -283,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -283,     0,     0,  -283,
+       0,  -283,  -283,     0,     0,     0,  -283,     0,  -283,  -283,
+       0,  -283,  -283,  -283,     0,     0,     0,     0,     0,     0,
+    -283,     0,  -283,     0,  -283,  -283,     0,     0,     0,  -283,
+    -283,  -283,     0,     0,     0,     0,     0,     0,     0,  -283,
+       0,     0,  -283,  -283,     0,     0,  -283,  -283,  -283,  -283,
+       0,  -283,     0,     0,     0,  -283,     0,     0,  -283,  -283,
+       0,  -283,  -283,     0,     0,     0,  -283,  -283,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -283,  -283,  -283,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -283,  -283,  -283,  -283,  -283,
+       0,     0,  -283,  -283,     0,  -283,  -283,  -283,  -283,  -283,
+    -283,  -229,  -283,  -283,  -229,  -283,     0,  -283,  -283,     0,
+    -229,     0,     0,     0,     0,     0,     0,     0,  -229,     0,
+       0,     0,     0,     0,     0,     0,     0,  -229,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -229,     0,     0,     0,
+       0,     0,  -229,     0,     0,  -229,  -229,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -229,     0,     0,
+    -229,     0,  -229,  -229,     0,     0,     0,  -229,     0,  -229,
+    -229,     0,  -229,  -229,  -229,     0,     0,     0,     0,     0,
+       0,  -229,     0,  -229,     0,  -229,  -229,     0,     0,     0,
+    -229,  -229,  -229,     0,     0,     0,     0,     0,     0,     0,
+    -229,     0,     0,  -229,  -229,     0,     0,  -229,  -229,  -229,
+    -229,     0,  -229,     0,     0,     0,  -229,     0,     0,  -229,
+    -229,     0,  -229,  -229,     0,     0,     0,  -229,  -229,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -229,  -229,  -229,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -229,  -229,  -229,  -229,
+    -229,     0,     0,  -229,  -229,     0,  -229,  -229,  -229,  -229,
+    -229,  -229,  -203,  -229,  -229,  -203,  -229,     0,  -229,  -229,
+       0,  -203,     0,     0,     0,     0,     0,     0,     0,  -203,
+       0,     0,     0,     0,     0,     0,     0,     0,  -203,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -203,     0,     0,
+       0,     0,     0,  -203,     0,     0,   316,  -203,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -203,     0,
+       0,  -203,     0,  -203,  -203,     0,     0,     0,  -203,     0,
+    -203,  -203,     0,  -203,  -203,  -203,     0,     0,     0,     0,
+       0,     0,  -203,     0,  -203,     0,  -203,  -203,     0,     0,
+       0,  -203,  -203,   317,     0,     0,     0,     0,     0,     0,
+       0,  -203,     0,     0,  -203,  -203,     0,     0,  -203,  -203,
+    -203,  -203,     0,   421,     0,     0,     0,  -203,     0,     0,
+    -203,   320,     0,  -203,  -203,     0,     0,     0,   321,   322,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -203,  -203,  -203,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,   323,   324,   325,
+     326,   327,     0,     0,   328,   329,     0,   330,   331,   332,
+     333,   334,   335,  -199,   336,  -203,  -199,  -203,     0,  -203,
+    -203,     0,  -199,     0,     0,     0,     0,     0,     0,     0,
+    -199,     0,     0,     0,     0,     0,     0,     0,     0,  -199,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -199,     0,
+       0,     0,     0,     0,  -199,     0,     0,  -199,  -199,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -199,
+       0,     0,  -199,     0,  -199,  -199,     0,     0,     0,  -199,
+       0,  -199,  -199,     0,  -199,  -199,  -199,     0,     0,     0,
+       0,     0,     0,  -199,     0,  -199,     0,  -199,  -199,     0,
+       0,     0,  -199,  -199,  -199,     0,     0,     0,     0,     0,
+       0,     0,  -199,     0,     0,  -199,  -199,     0,     0,  -199,
+    -199,  -199,  -199,     0,  -199,     0,     0,     0,  -199,     0,
+       0,  -199,  -199,     0,  -199,  -199,     0,     0,     0,  -199,
+    -199,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -199,  -199,  -199,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -199,  -199,
+    -199,  -199,  -199,     0,     0,  -199,  -199,     0,  -199,  -199,
+    -199,  -199,  -199,  -199,  -189,  -199,  -199,  -189,  -199,     0,
+    -199,  -199,     0,  -189,     0,     0,     0,     0,     0,     0,
+       0,  -189,     0,     0,     0,     0,     0,     0,     0,     0,
+    -189,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -189,
+       0,     0,     0,     0,     0,  -189,     0,     0,  -189,  -189,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -189,     0,     0,  -189,     0,  -189,  -189,     0,     0,     0,
+    -189,     0,  -189,  -189,     0,  -189,  -189,  -189,     0,     0,
+       0,     0,     0,     0,  -189,     0,  -189,     0,  -189,  -189,
+       0,     0,     0,  -189,  -189,  -189,     0,     0,     0,     0,
+       0,     0,     0,  -189,     0,     0,  -189,  -189,     0,     0,
+    -189,  -189,  -189,  -189,     0,  -189,     0,     0,     0,  -189,
+       0,     0,  -189,  -189,     0,  -189,  -189,     0,     0,     0,
+    -189,  -189,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -189,  -189,  -189,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -189,
+    -189,  -189,  -189,  -189,     0,     0,  -189,  -189,     0,  -189,
+    -189,  -189,  -189,  -189,  -189,  -205,  -189,  -189,  -205,  -189,
+       0,  -189,  -189,     0,  -205,     0,     0,     0,     0,     0,
+       0,     0,  -205,     0,     0,     0,     0,     0,     0,     0,
+       0,  -205,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -205,     0,     0,     0,     0,     0,  -205,     0,     0,  -205,
+    -205,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -205,     0,     0,  -205,     0,  -205,  -205,     0,     0,
+       0,  -205,     0,  -205,  -205,     0,  -205,  -205,  -205,     0,
+       0,     0,     0,     0,     0,  -205,     0,  -205,     0,  -205,
+    -205,     0,     0,     0,  -205,  -205,  -205,     0,     0,     0,
+       0,     0,     0,     0,  -205,     0,     0,  -205,  -205,     0,
+       0,  -205,  -205,  -205,  -205,     0,  -205,     0,     0,     0,
+    -205,     0,     0,  -205,  -205,     0,  -205,  -205,     0,     0,
+       0,  -205,  -205,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -205,  -205,  -205,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -205,  -205,  -205,  -205,  -205,     0,     0,  -205,  -205,     0,
+    -205,  -205,  -205,  -205,  -205,  -205,  -217,  -205,  -205,  -217,
+    -205,     0,  -205,  -205,     0,  -217,     0,     0,     0,     0,
+       0,     0,     0,  -217,     0,     0,     0,     0,     0,     0,
+       0,     0,  -217,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -217,     0,     0,     0,     0,     0,  -217,     0,     0,
+    -217,  -217,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -217,     0,     0,  -217,     0,  -217,  -217,     0,
+       0,     0,  -217,     0,  -217,  -217,     0,  -217,  -217,  -217,
+       0,     0,     0,     0,     0,     0,  -217,     0,  -217,     0,
+    -217,  -217,     0,     0,     0,  -217,  -217,  -217,     0,     0,
+       0,     0,     0,     0,     0,  -217,     0,     0,  -217,  -217,
+       0,     0,  -217,  -217,  -217,  -217,     0,  -217,     0,     0,
+       0,  -217,     0,     0,  -217,  -217,     0,  -217,  -217,     0,
+       0,     0,  -217,  -217,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -217,  -217,
+    -217,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -217,  -217,  -217,  -217,  -217,     0,     0,  -217,  -217,
+       0,  -217,  -217,  -217,  -217,  -217,  -217,  -209,   336,  -217,
+    -209,  -217,     0,  -217,  -217,     0,  -209,     0,     0,     0,
+       0,     0,     0,     0,  -209,     0,     0,     0,     0,     0,
        0,     0,     0,  -209,     0,     0,     0,     0,     0,     0,
-       0,     0,  -209,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -209,     0,     0,     0,     0,     0,  -209,     0,     0,
+       0,     0,  -209,     0,     0,     0,     0,     0,  -209,     0,
+       0,  -209,  -209,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -209,     0,     0,  -209,     0,  -209,  -209,
+       0,     0,     0,  -209,     0,  -209,  -209,     0,  -209,  -209,
+    -209,     0,     0,     0,     0,     0,     0,  -209,     0,  -209,
+       0,  -209,  -209,     0,     0,     0,  -209,  -209,  -209,     0,
+       0,     0,     0,     0,     0,     0,  -209,     0,     0,  -209,
+    -209,     0,     0,  -209,  -209,  -209,  -209,     0,  -209,     0,
+       0,     0,  -209,     0,     0,  -209,  -209,     0,  -209,  -209,
+       0,     0,     0,   321,  -209,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -209,
     -209,  -209,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -209,     0,     0,  -209,     0,  -209,  -209,     0,
-       0,     0,  -209,     0,  -209,  -209,     0,  -209,  -209,  -209,
-       0,     0,     0,     0,     0,     0,  -209,     0,  -209,     0,
-    -209,  -209,     0,     0,     0,  -209,  -209,  -209,     0,     0,
-       0,     0,     0,     0,     0,  -209,     0,     0,  -209,  -209,
-       0,     0,  -209,  -209,  -209,  -209,     0,  -209,     0,     0,
-       0,  -209,     0,     0,  -209,  -209,     0,  -209,  -209,     0,
-       0,     0,   316,  -209,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -209,  -209,
-    -209,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -209,  -209,  -209,  -209,  -209,     0,     0,  -209,  -209,
-       0,  -209,  -209,  -209,  -209,  -209,   330,  -211,   331,  -209,
-    -211,  -209,     0,  -209,  -209,     0,  -211,     0,     0,     0,
+       0,     0,  -209,  -209,  -209,  -209,  -209,     0,     0,  -209,
+    -209,     0,  -209,  -209,   332,   333,   334,   335,  -208,   336,
+    -209,  -208,  -209,     0,  -209,  -209,     0,  -208,     0,     0,
+       0,     0,     0,     0,     0,  -208,     0,     0,     0,     0,
+       0,     0,     0,     0,  -208,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -208,     0,     0,     0,     0,     0,  -208,
+       0,     0,  -208,  -208,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -208,     0,     0,  -208,     0,  -208,
+    -208,     0,     0,     0,  -208,     0,  -208,  -208,     0,  -208,
+    -208,  -208,     0,     0,     0,     0,     0,     0,  -208,     0,
+    -208,     0,  -208,  -208,     0,     0,     0,  -208,  -208,  -208,
+       0,     0,     0,     0,     0,     0,     0,  -208,     0,     0,
+    -208,  -208,     0,     0,  -208,  -208,  -208,  -208,     0,  -208,
+       0,     0,     0,  -208,     0,     0,  -208,  -208,     0,  -208,
+    -208,     0,     0,     0,   321,  -208,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -208,  -208,  -208,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -208,  -208,  -208,  -208,  -208,     0,     0,
+    -208,  -208,     0,  -208,  -208,   332,   333,   334,   335,  -211,
+     336,  -208,  -211,  -208,     0,  -208,  -208,     0,  -211,     0,
+       0,     0,     0,     0,     0,     0,  -211,     0,     0,     0,
+       0,     0,     0,     0,     0,  -211,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,  -211,     0,     0,     0,     0,     0,
-       0,     0,     0,  -211,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -211,     0,     0,     0,     0,     0,  -211,     0,
-       0,  -211,  -211,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -211,     0,     0,  -211,     0,  -211,  -211,
-       0,     0,     0,  -211,     0,  -211,  -211,     0,  -211,  -211,
-    -211,     0,     0,     0,     0,     0,     0,  -211,     0,  -211,
-       0,  -211,  -211,     0,     0,     0,  -211,  -211,  -211,     0,
-       0,     0,     0,     0,     0,     0,  -211,     0,     0,  -211,
-    -211,     0,     0,  -211,  -211,  -211,  -211,     0,  -211,     0,
-       0,     0,  -211,     0,     0,  -211,  -211,     0,  -211,  -211,
-       0,     0,     0,   316,  -211,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -211,
-    -211,  -211,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -211,  -211,  -211,  -211,  -211,     0,     0,  -211,
-    -211,     0,  -211,  -211,  -211,  -211,  -211,   330,  -212,   331,
-    -211,  -212,  -211,     0,  -211,  -211,     0,  -212,     0,     0,
-       0,     0,     0,     0,     0,  -212,     0,     0,     0,     0,
-       0,     0,     0,     0,  -212,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -212,     0,     0,     0,     0,     0,  -212,
-       0,     0,  -212,  -212,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -212,     0,     0,  -212,     0,  -212,
-    -212,     0,     0,     0,  -212,     0,  -212,  -212,     0,  -212,
-    -212,  -212,     0,     0,     0,     0,     0,     0,  -212,     0,
-    -212,     0,  -212,  -212,     0,     0,     0,  -212,  -212,  -212,
+    -211,     0,     0,  -211,  -211,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -211,     0,     0,  -211,     0,
+    -211,  -211,     0,     0,     0,  -211,     0,  -211,  -211,     0,
+    -211,  -211,  -211,     0,     0,     0,     0,     0,     0,  -211,
+       0,  -211,     0,  -211,  -211,     0,     0,     0,  -211,  -211,
+    -211,     0,     0,     0,     0,     0,     0,     0,  -211,     0,
+       0,  -211,  -211,     0,     0,  -211,  -211,  -211,  -211,     0,
+    -211,     0,     0,     0,  -211,     0,     0,  -211,  -211,     0,
+    -211,  -211,     0,     0,     0,   321,  -211,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -211,  -211,  -211,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -211,  -211,  -211,  -211,  -211,     0,
+       0,  -211,  -211,     0,  -211,  -211,  -211,  -211,  -211,   335,
+    -210,   336,  -211,  -210,  -211,     0,  -211,  -211,     0,  -210,
+       0,     0,     0,     0,     0,     0,     0,  -210,     0,     0,
+       0,     0,     0,     0,     0,     0,  -210,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -210,     0,     0,     0,     0,
+       0,  -210,     0,     0,  -210,  -210,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -210,     0,     0,  -210,
+       0,  -210,  -210,     0,     0,     0,  -210,     0,  -210,  -210,
+       0,  -210,  -210,  -210,     0,     0,     0,     0,     0,     0,
+    -210,     0,  -210,     0,  -210,  -210,     0,     0,     0,  -210,
+    -210,  -210,     0,     0,     0,     0,     0,     0,     0,  -210,
+       0,     0,  -210,  -210,     0,     0,  -210,  -210,  -210,  -210,
+       0,  -210,     0,     0,     0,  -210,     0,     0,  -210,  -210,
+       0,  -210,  -210,     0,     0,     0,   321,  -210,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -210,  -210,  -210,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -210,  -210,  -210,  -210,  -210,
+       0,     0,  -210,  -210,     0,  -210,  -210,  -210,  -210,  -210,
+     335,  -212,   336,  -210,  -212,  -210,     0,  -210,  -210,     0,
+    -212,     0,     0,     0,     0,     0,     0,     0,  -212,     0,
        0,     0,     0,     0,     0,     0,     0,  -212,     0,     0,
-    -212,  -212,     0,     0,  -212,  -212,  -212,  -212,     0,  -212,
-       0,     0,     0,  -212,     0,     0,  -212,  -212,     0,  -212,
-    -212,     0,     0,     0,   316,  -212,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -212,     0,     0,     0,
+       0,     0,  -212,     0,     0,  -212,  -212,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -212,     0,     0,
+    -212,     0,  -212,  -212,     0,     0,     0,  -212,     0,  -212,
+    -212,     0,  -212,  -212,  -212,     0,     0,     0,     0,     0,
+       0,  -212,     0,  -212,     0,  -212,  -212,     0,     0,     0,
     -212,  -212,  -212,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -212,  -212,  -212,  -212,  -212,     0,     0,
-    -212,  -212,     0,  -212,  -212,  -212,  -212,  -212,  -212,  -238,
-     331,  -212,  -238,  -212,     0,  -212,  -212,     0,  -238,     0,
-       0,     0,     0,     0,     0,     0,  -238,     0,     0,     0,
-       0,     0,     0,     0,     0,  -238,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -238,     0,     0,     0,     0,     0,
-    -238,     0,     0,  -238,  -238,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -238,     0,     0,  -238,     0,
-    -238,  -238,     0,     0,     0,  -238,     0,  -238,  -238,     0,
-    -238,  -238,  -238,     0,     0,     0,     0,     0,     0,  -238,
-       0,  -238,     0,  -238,  -238,     0,     0,     0,  -238,  -238,
-    -238,     0,     0,     0,     0,     0,     0,     0,  -238,     0,
-       0,  -238,  -238,     0,     0,  -238,  -238,  -238,  -238,     0,
-    -238,     0,     0,     0,  -238,     0,     0,  -238,  -238,     0,
-    -238,  -238,     0,     0,     0,  -238,  -238,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -238,  -238,  -238,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -238,  -238,  -238,  -238,  -238,     0,
-       0,  -238,  -238,     0,  -238,  -238,  -238,  -238,  -238,  -238,
-    -223,  -238,  -238,  -223,  -238,     0,  -238,  -238,     0,  -223,
-       0,     0,     0,     0,     0,     0,     0,  -223,     0,     0,
-       0,     0,     0,     0,     0,     0,  -223,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -223,     0,     0,     0,     0,
-       0,  -223,     0,     0,  -223,  -223,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -223,     0,     0,  -223,
-       0,  -223,  -223,     0,     0,     0,  -223,     0,  -223,  -223,
-       0,  -223,  -223,  -223,     0,     0,     0,     0,     0,     0,
-    -223,     0,  -223,     0,  -223,  -223,     0,     0,     0,  -223,
-    -223,  -223,     0,     0,     0,     0,     0,     0,     0,  -223,
-       0,     0,  -223,  -223,     0,     0,  -223,  -223,  -223,  -223,
-       0,  -223,     0,     0,     0,  -223,     0,     0,  -223,  -223,
-       0,  -223,  -223,     0,     0,     0,  -223,  -223,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -223,  -223,  -223,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -223,  -223,  -223,  -223,  -223,
-       0,     0,  -223,  -223,     0,  -223,  -223,  -223,  -223,  -223,
-    -223,  -273,  -223,  -223,  -273,  -223,     0,  -223,  -223,     0,
-    -273,     0,     0,     0,     0,     0,     0,     0,  -273,     0,
-       0,     0,     0,     0,     0,     0,     0,  -273,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -273,     0,     0,     0,
-       0,     0,  -273,     0,     0,  -273,  -273,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -273,     0,     0,
-    -273,     0,  -273,  -273,     0,     0,     0,  -273,     0,  -273,
-    -273,     0,  -273,  -273,  -273,     0,     0,     0,     0,     0,
-       0,  -273,     0,  -273,     0,  -273,  -273,     0,     0,     0,
-    -273,  -273,  -273,     0,     0,     0,     0,     0,     0,     0,
-    -273,     0,     0,  -273,  -273,     0,     0,  -273,  -273,  -273,
-    -273,     0,  -273,     0,     0,     0,  -273,     0,     0,  -273,
-    -273,     0,  -273,  -273,     0,     0,     0,  -273,  -273,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -273,  -273,  -273,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -273,  -273,  -273,  -273,
-    -273,     0,     0,  -273,  -273,     0,  -273,  -273,  -273,  -273,
-    -273,  -273,  -205,  -273,  -273,  -205,  -273,     0,  -273,  -273,
-       0,  -205,     0,     0,     0,     0,     0,     0,     0,  -205,
-       0,     0,     0,     0,     0,     0,     0,     0,  -205,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -205,     0,     0,
-       0,     0,     0,  -205,     0,     0,  -205,  -205,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -205,     0,
-       0,  -205,     0,  -205,  -205,     0,     0,     0,  -205,     0,
-    -205,  -205,     0,  -205,  -205,  -205,     0,     0,     0,     0,
-       0,     0,  -205,     0,  -205,     0,  -205,  -205,     0,     0,
-       0,  -205,  -205,  -205,     0,     0,     0,     0,     0,     0,
-       0,  -205,     0,     0,  -205,  -205,     0,     0,  -205,  -205,
-    -205,  -205,     0,  -205,     0,     0,     0,  -205,     0,     0,
-    -205,  -205,     0,  -205,  -205,     0,     0,     0,  -205,  -205,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -205,  -205,  -205,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -205,  -205,  -205,
-    -205,  -205,     0,     0,  -205,  -205,     0,  -205,  -205,  -205,
-    -205,  -205,  -205,  -274,  -205,  -205,  -274,  -205,     0,  -205,
-    -205,     0,  -274,     0,     0,     0,     0,     0,     0,     0,
-    -274,     0,     0,     0,     0,     0,     0,     0,     0,  -274,
+    -212,     0,     0,  -212,  -212,     0,     0,  -212,  -212,  -212,
+    -212,     0,  -212,     0,     0,     0,  -212,     0,     0,  -212,
+    -212,     0,  -212,  -212,     0,     0,     0,   321,  -212,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -212,  -212,  -212,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -212,  -212,  -212,  -212,
+    -212,     0,     0,  -212,  -212,     0,  -212,  -212,  -212,  -212,
+    -212,   335,  -213,   336,  -212,  -213,  -212,     0,  -212,  -212,
+       0,  -213,     0,     0,     0,     0,     0,     0,     0,  -213,
+       0,     0,     0,     0,     0,     0,     0,     0,  -213,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -213,     0,     0,
+       0,     0,     0,  -213,     0,     0,  -213,  -213,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -213,     0,
+       0,  -213,     0,  -213,  -213,     0,     0,     0,  -213,     0,
+    -213,  -213,     0,  -213,  -213,  -213,     0,     0,     0,     0,
+       0,     0,  -213,     0,  -213,     0,  -213,  -213,     0,     0,
+       0,  -213,  -213,  -213,     0,     0,     0,     0,     0,     0,
+       0,  -213,     0,     0,  -213,  -213,     0,     0,  -213,  -213,
+    -213,  -213,     0,  -213,     0,     0,     0,  -213,     0,     0,
+    -213,  -213,     0,  -213,  -213,     0,     0,     0,   321,  -213,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -213,  -213,  -213,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -213,  -213,  -213,
+    -213,  -213,     0,     0,  -213,  -213,     0,  -213,  -213,  -213,
+    -213,  -213,  -213,  -242,   336,  -213,  -242,  -213,     0,  -213,
+    -213,     0,  -242,     0,     0,     0,     0,     0,     0,     0,
+    -242,     0,     0,     0,     0,     0,     0,     0,     0,  -242,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -242,     0,
+       0,     0,     0,     0,  -242,     0,     0,  -242,  -242,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -242,
+       0,     0,  -242,     0,  -242,  -242,     0,     0,     0,  -242,
+       0,  -242,  -242,     0,  -242,  -242,  -242,     0,     0,     0,
+       0,     0,     0,  -242,     0,  -242,     0,  -242,  -242,     0,
+       0,     0,  -242,  -242,  -242,     0,     0,     0,     0,     0,
+       0,     0,  -242,     0,     0,  -242,  -242,     0,     0,  -242,
+    -242,  -242,  -242,     0,  -242,     0,     0,     0,  -242,     0,
+       0,  -242,  -242,     0,  -242,  -242,     0,     0,     0,  -242,
+    -242,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -242,  -242,  -242,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -242,  -242,
+    -242,  -242,  -242,     0,     0,  -242,  -242,     0,  -242,  -242,
+    -242,  -242,  -242,  -242,  -227,  -242,  -242,  -227,  -242,     0,
+    -242,  -242,     0,  -227,     0,     0,     0,     0,     0,     0,
+       0,  -227,     0,     0,     0,     0,     0,     0,     0,     0,
+    -227,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -227,
+       0,     0,     0,     0,     0,  -227,     0,     0,  -227,  -227,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -227,     0,     0,  -227,     0,  -227,  -227,     0,     0,     0,
+    -227,     0,  -227,  -227,     0,  -227,  -227,  -227,     0,     0,
+       0,     0,     0,     0,  -227,     0,  -227,     0,  -227,  -227,
+       0,     0,     0,  -227,  -227,  -227,     0,     0,     0,     0,
+       0,     0,     0,  -227,     0,     0,  -227,  -227,     0,     0,
+    -227,  -227,  -227,  -227,     0,  -227,     0,     0,     0,  -227,
+       0,     0,  -227,  -227,     0,  -227,  -227,     0,     0,     0,
+    -227,  -227,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -227,  -227,  -227,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -227,
+    -227,  -227,  -227,  -227,     0,     0,  -227,  -227,     0,  -227,
+    -227,  -227,  -227,  -227,  -227,  -277,  -227,  -227,  -277,  -227,
+       0,  -227,  -227,     0,  -277,     0,     0,     0,     0,     0,
+       0,     0,  -277,     0,     0,     0,     0,     0,     0,     0,
+       0,  -277,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -277,     0,     0,     0,     0,     0,  -277,     0,     0,  -277,
+    -277,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -277,     0,     0,  -277,     0,  -277,  -277,     0,     0,
+       0,  -277,     0,  -277,  -277,     0,  -277,  -277,  -277,     0,
+       0,     0,     0,     0,     0,  -277,     0,  -277,     0,  -277,
+    -277,     0,     0,     0,  -277,  -277,  -277,     0,     0,     0,
+       0,     0,     0,     0,  -277,     0,     0,  -277,  -277,     0,
+       0,  -277,  -277,  -277,  -277,     0,  -277,     0,     0,     0,
+    -277,     0,     0,  -277,  -277,     0,  -277,  -277,     0,     0,
+       0,  -277,  -277,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -277,  -277,  -277,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -277,  -277,  -277,  -277,  -277,     0,     0,  -277,  -277,     0,
+    -277,  -277,  -277,  -277,  -277,  -277,  -206,  -277,  -277,  -206,
+    -277,     0,  -277,  -277,     0,  -206,     0,     0,     0,     0,
+       0,     0,     0,  -206,     0,     0,     0,     0,     0,     0,
+       0,     0,  -206,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -206,     0,     0,     0,     0,     0,  -206,     0,     0,
+    -206,  -206,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -206,     0,     0,  -206,     0,  -206,  -206,     0,
+       0,     0,  -206,     0,  -206,  -206,     0,  -206,  -206,  -206,
+       0,     0,     0,     0,     0,     0,  -206,     0,  -206,     0,
+    -206,  -206,     0,     0,     0,  -206,  -206,  -206,     0,     0,
+       0,     0,     0,     0,     0,  -206,     0,     0,  -206,  -206,
+       0,     0,  -206,  -206,  -206,  -206,     0,  -206,     0,     0,
+       0,  -206,     0,     0,  -206,  -206,     0,  -206,  -206,     0,
+       0,     0,  -206,  -206,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -206,  -206,
+    -206,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -206,  -206,  -206,  -206,  -206,     0,     0,  -206,  -206,
+       0,  -206,  -206,  -206,  -206,  -206,  -206,  -278,  -206,  -206,
+    -278,  -206,     0,  -206,  -206,     0,  -278,     0,     0,     0,
+       0,     0,     0,     0,  -278,     0,     0,     0,     0,     0,
+       0,     0,     0,  -278,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -278,     0,     0,     0,     0,     0,  -278,     0,
+       0,  -278,  -278,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -278,     0,     0,  -278,     0,  -278,  -278,
+       0,     0,     0,  -278,     0,  -278,  -278,     0,  -278,  -278,
+    -278,     0,     0,     0,     0,     0,     0,  -278,     0,  -278,
+       0,  -278,  -278,     0,     0,     0,  -278,  -278,  -278,     0,
+       0,     0,     0,     0,     0,     0,  -278,     0,     0,  -278,
+    -278,     0,     0,  -278,  -278,  -278,  -278,     0,  -278,     0,
+       0,     0,  -278,     0,     0,  -278,  -278,     0,  -278,  -278,
+       0,     0,     0,  -278,  -278,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -278,
+    -278,  -278,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -278,  -278,  -278,  -278,  -278,     0,     0,  -278,
+    -278,     0,  -278,  -278,  -278,  -278,  -278,  -278,  -230,  -278,
+    -278,  -230,  -278,     0,  -278,  -278,     0,  -230,     0,     0,
+       0,     0,     0,     0,     0,  -230,     0,     0,     0,     0,
+       0,     0,     0,     0,  -230,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -230,     0,     0,     0,     0,     0,  -230,
+       0,     0,  -230,  -230,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -230,     0,     0,  -230,     0,  -230,
+    -230,     0,     0,     0,  -230,     0,  -230,  -230,     0,  -230,
+    -230,  -230,     0,     0,     0,     0,     0,     0,  -230,     0,
+    -230,     0,  -230,  -230,     0,     0,     0,  -230,  -230,  -230,
+       0,     0,     0,     0,     0,     0,     0,  -230,     0,     0,
+    -230,  -230,     0,     0,  -230,  -230,  -230,  -230,     0,  -230,
+       0,     0,     0,  -230,     0,     0,  -230,  -230,     0,  -230,
+    -230,     0,     0,     0,  -230,  -230,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -274,     0,
-       0,     0,     0,     0,  -274,     0,     0,  -274,  -274,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -274,
-       0,     0,  -274,     0,  -274,  -274,     0,     0,     0,  -274,
-       0,  -274,  -274,     0,  -274,  -274,  -274,     0,     0,     0,
-       0,     0,     0,  -274,     0,  -274,     0,  -274,  -274,     0,
-       0,     0,  -274,  -274,  -274,     0,     0,     0,     0,     0,
-       0,     0,  -274,     0,     0,  -274,  -274,     0,     0,  -274,
-    -274,  -274,  -274,     0,  -274,     0,     0,     0,  -274,     0,
-       0,  -274,  -274,     0,  -274,  -274,     0,     0,     0,  -274,
-    -274,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -274,  -274,  -274,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -274,  -274,
-    -274,  -274,  -274,     0,     0,  -274,  -274,     0,  -274,  -274,
-    -274,  -274,  -274,  -274,  -226,  -274,  -274,  -226,  -274,     0,
-    -274,  -274,     0,  -226,     0,     0,     0,     0,     0,     0,
-       0,  -226,     0,     0,     0,     0,     0,     0,     0,     0,
-    -226,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -226,
-       0,     0,     0,     0,     0,  -226,     0,     0,  -226,  -226,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -226,     0,     0,  -226,     0,  -226,  -226,     0,     0,     0,
-    -226,     0,  -226,  -226,     0,  -226,  -226,  -226,     0,     0,
-       0,     0,     0,     0,  -226,     0,  -226,     0,  -226,  -226,
-       0,     0,     0,  -226,  -226,  -226,     0,     0,     0,     0,
-       0,     0,     0,  -226,     0,     0,  -226,  -226,     0,     0,
-    -226,  -226,  -226,  -226,     0,  -226,     0,     0,     0,  -226,
-       0,     0,  -226,  -226,     0,  -226,  -226,     0,     0,     0,
-    -226,  -226,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -226,  -226,  -226,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -226,
-    -226,  -226,  -226,  -226,     0,     0,  -226,  -226,     0,  -226,
-    -226,  -226,  -226,  -226,  -226,  -239,  -226,  -226,  -239,  -226,
-       0,  -226,  -226,     0,  -239,     0,     0,     0,     0,     0,
-       0,     0,  -239,     0,     0,     0,     0,     0,     0,     0,
-       0,  -239,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -239,     0,     0,     0,     0,     0,  -239,     0,     0,  -239,
-    -239,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -239,     0,     0,  -239,     0,  -239,  -239,     0,     0,
-       0,  -239,     0,  -239,  -239,     0,  -239,  -239,  -239,     0,
-       0,     0,     0,     0,     0,  -239,     0,  -239,     0,  -239,
-    -239,     0,     0,     0,  -239,  -239,  -239,     0,     0,     0,
-       0,     0,     0,     0,  -239,     0,     0,  -239,  -239,     0,
-       0,  -239,  -239,  -239,  -239,     0,  -239,     0,     0,     0,
-    -239,     0,     0,  -239,  -239,     0,  -239,  -239,     0,     0,
-       0,  -239,  -239,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -239,  -239,  -239,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -239,  -239,  -239,  -239,  -239,     0,     0,  -239,  -239,     0,
-    -239,  -239,  -239,  -239,  -239,  -239,  -240,  -239,  -239,  -240,
-    -239,     0,  -239,  -239,     0,  -240,     0,     0,     0,     0,
-       0,     0,     0,  -240,     0,     0,     0,     0,     0,     0,
-       0,     0,  -240,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -230,  -230,  -230,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -230,  -230,  -230,  -230,  -230,     0,     0,
+    -230,  -230,     0,  -230,  -230,  -230,  -230,  -230,  -230,  -243,
+    -230,  -230,  -243,  -230,     0,  -230,  -230,     0,  -243,     0,
+       0,     0,     0,     0,     0,     0,  -243,     0,     0,     0,
+       0,     0,     0,     0,     0,  -243,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -243,     0,     0,     0,     0,     0,
+    -243,     0,     0,  -243,  -243,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -243,     0,     0,  -243,     0,
+    -243,  -243,     0,     0,     0,  -243,     0,  -243,  -243,     0,
+    -243,  -243,  -243,     0,     0,     0,     0,     0,     0,  -243,
+       0,  -243,     0,  -243,  -243,     0,     0,     0,  -243,  -243,
+    -243,     0,     0,     0,     0,     0,     0,     0,  -243,     0,
+       0,  -243,  -243,     0,     0,  -243,  -243,  -243,  -243,     0,
+    -243,     0,     0,     0,  -243,     0,     0,  -243,  -243,     0,
+    -243,  -243,     0,     0,     0,  -243,  -243,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -243,  -243,  -243,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -243,  -243,  -243,  -243,  -243,     0,
+       0,  -243,  -243,     0,  -243,  -243,  -243,  -243,  -243,  -243,
+    -244,  -243,  -243,  -244,  -243,     0,  -243,  -243,     0,  -244,
+       0,     0,     0,     0,     0,     0,     0,  -244,     0,     0,
+       0,     0,     0,     0,     0,     0,  -244,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -244,     0,     0,     0,     0,
+       0,  -244,     0,     0,  -244,  -244,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -244,     0,     0,  -244,
+       0,  -244,  -244,     0,     0,     0,  -244,     0,  -244,  -244,
+       0,  -244,  -244,  -244,     0,     0,     0,     0,     0,     0,
+    -244,     0,  -244,     0,  -244,  -244,     0,     0,     0,  -244,
+    -244,  -244,     0,     0,     0,     0,     0,     0,     0,  -244,
+       0,     0,  -244,  -244,     0,     0,  -244,  -244,  -244,  -244,
+       0,  -244,     0,     0,     0,  -244,     0,     0,  -244,  -244,
+       0,  -244,  -244,     0,     0,     0,  -244,  -244,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -244,  -244,  -244,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -244,  -244,  -244,  -244,  -244,
+       0,     0,  -244,  -244,     0,  -244,  -244,  -244,  -244,  -244,
+    -244,  -261,  -244,  -244,  -261,  -244,     0,  -244,  -244,     0,
+    -261,     0,     0,     0,     0,     0,     0,     0,  -261,     0,
+       0,     0,     0,     0,     0,     0,     0,  -261,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -261,     0,     0,     0,
+       0,     0,  -261,     0,     0,  -261,  -261,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -261,     0,     0,
+    -261,     0,  -261,  -261,     0,     0,     0,  -261,     0,  -261,
+    -261,     0,  -261,  -261,  -261,     0,     0,     0,     0,     0,
+       0,  -261,     0,  -261,     0,  -261,  -261,     0,     0,     0,
+    -261,  -261,  -261,     0,     0,     0,     0,     0,     0,     0,
+    -261,     0,     0,  -261,  -261,     0,     0,  -261,  -261,  -261,
+    -261,     0,  -261,     0,     0,     0,  -261,     0,     0,  -261,
+    -261,     0,  -261,  -261,     0,     0,     0,  -261,  -261,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -261,  -261,  -261,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -261,  -261,  -261,  -261,
+    -261,     0,     0,  -261,  -261,     0,  -261,  -261,  -261,  -261,
+    -261,  -261,  -262,  -261,  -261,  -262,  -261,     0,  -261,  -261,
+       0,  -262,     0,     0,     0,     0,     0,     0,     0,  -262,
+       0,     0,     0,     0,     0,     0,     0,     0,  -262,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -262,     0,     0,
+       0,     0,     0,  -262,     0,     0,  -262,  -262,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -262,     0,
+       0,  -262,     0,  -262,  -262,     0,     0,     0,  -262,     0,
+    -262,  -262,     0,  -262,  -262,  -262,     0,     0,     0,     0,
+       0,     0,  -262,     0,  -262,     0,  -262,  -262,     0,     0,
+       0,  -262,  -262,  -262,     0,     0,     0,     0,     0,     0,
+       0,  -262,     0,     0,  -262,  -262,     0,     0,  -262,  -262,
+    -262,  -262,     0,  -262,     0,     0,     0,  -262,     0,     0,
+    -262,  -262,     0,  -262,  -262,     0,     0,     0,  -262,  -262,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -262,  -262,  -262,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -262,  -262,  -262,
+    -262,  -262,     0,     0,  -262,  -262,     0,  -262,  -262,  -262,
+    -262,  -262,  -262,  -228,  -262,  -262,  -228,  -262,     0,  -262,
+    -262,     0,  -228,     0,     0,     0,     0,     0,     0,     0,
+    -228,     0,     0,     0,     0,     0,     0,     0,     0,  -228,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -228,     0,
+       0,     0,     0,     0,  -228,     0,     0,  -228,  -228,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -228,
+       0,     0,  -228,     0,  -228,  -228,     0,     0,     0,  -228,
+       0,  -228,  -228,     0,  -228,  -228,  -228,     0,     0,     0,
+       0,     0,     0,  -228,     0,  -228,     0,  -228,  -228,     0,
+       0,     0,  -228,  -228,  -228,     0,     0,     0,     0,     0,
+       0,     0,  -228,     0,     0,  -228,  -228,     0,     0,  -228,
+    -228,  -228,  -228,     0,  -228,     0,     0,     0,  -228,     0,
+       0,  -228,  -228,     0,  -228,  -228,     0,     0,     0,  -228,
+    -228,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -228,  -228,  -228,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -228,  -228,
+    -228,  -228,  -228,     0,     0,  -228,  -228,     0,  -228,  -228,
+    -228,  -228,  -228,  -228,  -245,  -228,  -228,  -245,  -228,     0,
+    -228,  -228,     0,  -245,     0,     0,     0,     0,     0,     0,
+       0,  -245,     0,     0,     0,     0,     0,     0,     0,     0,
+    -245,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -245,
+       0,     0,     0,     0,     0,  -245,     0,     0,  -245,  -245,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -245,     0,     0,  -245,     0,  -245,  -245,     0,     0,     0,
+    -245,     0,  -245,  -245,     0,  -245,  -245,  -245,     0,     0,
+       0,     0,     0,     0,  -245,     0,  -245,     0,  -245,  -245,
+       0,     0,     0,  -245,  -245,  -245,     0,     0,     0,     0,
+       0,     0,     0,  -245,     0,     0,  -245,  -245,     0,     0,
+    -245,  -245,  -245,  -245,     0,  -245,     0,     0,     0,  -245,
+       0,     0,  -245,  -245,     0,  -245,  -245,     0,     0,     0,
+    -245,  -245,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -245,  -245,  -245,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -245,
+    -245,  -245,  -245,  -245,     0,     0,  -245,  -245,     0,  -245,
+    -245,  -245,  -245,  -245,  -245,  -246,  -245,  -245,  -246,  -245,
+       0,  -245,  -245,     0,  -246,     0,     0,     0,     0,     0,
+       0,     0,  -246,     0,     0,     0,     0,     0,     0,     0,
+       0,  -246,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -246,     0,     0,     0,     0,     0,  -246,     0,     0,  -246,
+    -246,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -246,     0,     0,  -246,     0,  -246,  -246,     0,     0,
+       0,  -246,     0,  -246,  -246,     0,  -246,  -246,  -246,     0,
+       0,     0,     0,     0,     0,  -246,     0,  -246,     0,  -246,
+    -246,     0,     0,     0,  -246,  -246,  -246,     0,     0,     0,
+       0,     0,     0,     0,  -246,     0,     0,  -246,  -246,     0,
+       0,  -246,  -246,  -246,  -246,     0,  -246,     0,     0,     0,
+    -246,     0,     0,  -246,  -246,     0,  -246,  -246,     0,     0,
+       0,  -246,  -246,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -279,     0,     0,  -279,  -246,  -246,  -246,
+       0,     0,  -279,     0,     0,     0,     0,     0,     0,     0,
+    -246,  -246,  -246,  -246,  -246,     0,     0,  -246,  -246,  -279,
+    -246,  -246,  -246,  -246,  -246,  -246,     0,  -246,  -246,     0,
+    -246,     0,  -246,  -246,     0,     0,     0,     0,  -279,     0,
+       0,     0,     0,     0,  -279,  -151,     0,   316,  -279,     0,
+       0,     0,     0,     0,  -151,     0,     0,     0,     0,  -279,
+       0,     0,  -279,     0,  -279,  -279,     0,     0,     0,  -279,
+       0,  -279,  -279,     0,  -279,  -279,  -279,     0,     0,     0,
+       0,     0,     0,  -279,     0,  -279,     0,  -279,  -279,     0,
+    -151,     0,  -279,  -279,   317,     0,     0,     0,     0,     0,
+    -151,     0,  -279,     0,     0,  -279,  -279,     0,     0,  -279,
+    -279,  -279,  -279,     0,   421,     0,     0,  -151,  -279,     0,
+       0,  -151,   320,     0,  -279,  -279,  -151,     0,     0,   321,
+     322,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -279,  -279,  -279,  -151,     0,
+       0,   313,     0,     0,  -151,     0,     0,     0,   323,   324,
+     325,   326,   327,     0,     0,   328,   329,   314,   330,   331,
+     332,   333,   334,   335,  -238,   336,  -279,  -238,  -279,     0,
+    -279,  -279,     0,  -238,     0,     0,     0,     0,     0,     0,
+       0,  -238,     0,     0,     0,     0,     0,     0,     0,     0,
+    -238,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -238,
+       0,     0,     0,     0,     0,  -238,     0,     0,   316,  -238,
+    -151,     0,  -151,     0,     0,     0,     0,     0,     0,     0,
+    -238,     0,     0,  -238,     0,  -238,  -238,     0,     0,     0,
+    -238,     0,  -238,  -238,     0,  -238,  -238,  -238,     0,     0,
+       0,     0,     0,     0,  -238,     0,  -238,     0,  -238,  -238,
+       0,     0,     0,  -238,  -238,  -238,  -150,     0,     0,     0,
+       0,     0,     0,  -238,     0,  -150,  -238,  -238,     0,     0,
+    -238,  -238,  -238,  -238,     0,  -238,     0,     0,     0,  -238,
+       0,     0,  -238,   320,     0,  -238,  -238,     0,     0,     0,
+     321,  -238,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -150,     0,     0,     0,     0,     0,     0,     0,     0,
+    -239,  -150,     0,  -239,     0,     0,  -238,  -238,  -238,  -239,
+       0,     0,     0,     0,     0,   550,     0,  -239,  -150,  -238,
+    -238,  -238,  -150,     0,     0,     0,  -239,  -150,     0,   330,
+     331,   332,   333,   334,   335,     0,   336,  -238,     0,  -238,
+       0,  -238,  -238,     0,     0,  -239,     0,     0,     0,     0,
+       0,  -239,     0,     0,   316,  -239,     0,     0,     0,  -150,
+       0,     0,     0,     0,     0,  -150,  -239,     0,     0,  -239,
+       0,  -239,  -239,     0,     0,     0,  -239,     0,  -239,  -239,
+       0,  -239,  -239,  -239,     0,     0,     0,     0,     0,     0,
+    -239,     0,  -239,     0,  -239,  -239,     0,     0,     0,  -239,
+    -239,  -239,     0,     0,     0,     0,     0,     0,     0,  -239,
+       0,     0,  -239,  -239,     0,     0,  -239,  -239,  -239,  -239,
+       0,  -239,     0,     0,     0,  -239,     0,     0,  -239,   320,
+       0,  -239,  -239,     0,     0,     0,   321,  -239,     0,     0,
+       0,  -150,     0,  -150,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -240,     0,     0,  -240,
+       0,     0,  -239,  -239,  -239,  -240,     0,     0,     0,     0,
+       0,     0,     0,  -240,     0,  -239,  -239,  -239,     0,     0,
+       0,     0,  -240,     0,     0,   330,   331,   332,   333,   334,
+     335,     0,   336,  -239,     0,  -239,     0,  -239,  -239,     0,
        0,  -240,     0,     0,     0,     0,     0,  -240,     0,     0,
-    -240,  -240,     0,     0,     0,     0,     0,     0,     0,     0,
+     316,  -240,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,  -240,     0,     0,  -240,     0,  -240,  -240,     0,
        0,     0,  -240,     0,  -240,  -240,     0,  -240,  -240,  -240,
        0,     0,     0,     0,     0,     0,  -240,     0,  -240,     0,
     -240,  -240,     0,     0,     0,  -240,  -240,  -240,     0,     0,
        0,     0,     0,     0,     0,  -240,     0,     0,  -240,  -240,
        0,     0,  -240,  -240,  -240,  -240,     0,  -240,     0,     0,
-       0,  -240,     0,     0,  -240,  -240,     0,  -240,  -240,     0,
-       0,     0,  -240,  -240,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -240,  -240,
-    -240,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -240,  -240,  -240,  -240,  -240,     0,     0,  -240,  -240,
-       0,  -240,  -240,  -240,  -240,  -240,  -240,  -257,  -240,  -240,
-    -257,  -240,     0,  -240,  -240,     0,  -257,     0,     0,     0,
-       0,     0,     0,     0,  -257,     0,     0,     0,     0,     0,
-       0,     0,     0,  -257,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -257,     0,     0,     0,     0,     0,  -257,     0,
-       0,  -257,  -257,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -257,     0,     0,  -257,     0,  -257,  -257,
-       0,     0,     0,  -257,     0,  -257,  -257,     0,  -257,  -257,
-    -257,     0,     0,     0,     0,     0,     0,  -257,     0,  -257,
-       0,  -257,  -257,     0,     0,     0,  -257,  -257,  -257,     0,
-       0,     0,     0,     0,     0,     0,  -257,     0,     0,  -257,
-    -257,     0,     0,  -257,  -257,  -257,  -257,     0,  -257,     0,
-       0,     0,  -257,     0,     0,  -257,  -257,     0,  -257,  -257,
-       0,     0,     0,  -257,  -257,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -257,
-    -257,  -257,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -257,  -257,  -257,  -257,  -257,     0,     0,  -257,
-    -257,     0,  -257,  -257,  -257,  -257,  -257,  -257,  -258,  -257,
-    -257,  -258,  -257,     0,  -257,  -257,     0,  -258,     0,     0,
-       0,     0,     0,     0,     0,  -258,     0,     0,     0,     0,
-       0,     0,     0,     0,  -258,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -258,     0,     0,     0,     0,     0,  -258,
-       0,     0,  -258,  -258,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -258,     0,     0,  -258,     0,  -258,
-    -258,     0,     0,     0,  -258,     0,  -258,  -258,     0,  -258,
-    -258,  -258,     0,     0,     0,     0,     0,     0,  -258,     0,
-    -258,     0,  -258,  -258,     0,     0,     0,  -258,  -258,  -258,
-       0,     0,     0,     0,     0,     0,     0,  -258,     0,     0,
-    -258,  -258,     0,     0,  -258,  -258,  -258,  -258,     0,  -258,
-       0,     0,     0,  -258,     0,     0,  -258,  -258,     0,  -258,
-    -258,     0,     0,     0,  -258,  -258,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -258,  -258,  -258,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -258,  -258,  -258,  -258,  -258,     0,     0,
-    -258,  -258,     0,  -258,  -258,  -258,  -258,  -258,  -258,  -224,
-    -258,  -258,  -224,  -258,     0,  -258,  -258,     0,  -224,     0,
-       0,     0,     0,     0,     0,     0,  -224,     0,     0,     0,
-       0,     0,     0,     0,     0,  -224,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -224,     0,     0,     0,     0,     0,
-    -224,     0,     0,  -224,  -224,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -224,     0,     0,  -224,     0,
-    -224,  -224,     0,     0,     0,  -224,     0,  -224,  -224,     0,
-    -224,  -224,  -224,     0,     0,     0,     0,     0,     0,  -224,
-       0,  -224,     0,  -224,  -224,     0,     0,     0,  -224,  -224,
-    -224,     0,     0,     0,     0,     0,     0,     0,  -224,     0,
-       0,  -224,  -224,     0,     0,  -224,  -224,  -224,  -224,     0,
-    -224,     0,     0,     0,  -224,     0,     0,  -224,  -224,     0,
-    -224,  -224,     0,     0,     0,  -224,  -224,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -224,  -224,  -224,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -224,  -224,  -224,  -224,  -224,     0,
-       0,  -224,  -224,     0,  -224,  -224,  -224,  -224,  -224,  -224,
-    -241,  -224,  -224,  -241,  -224,     0,  -224,  -224,     0,  -241,
-       0,     0,     0,     0,     0,     0,     0,  -241,     0,     0,
-       0,     0,     0,     0,     0,     0,  -241,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -241,     0,     0,     0,     0,
-       0,  -241,     0,     0,  -241,  -241,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -241,     0,     0,  -241,
-       0,  -241,  -241,     0,     0,     0,  -241,     0,  -241,  -241,
+       0,  -240,     0,     0,  -240,   320,     0,  -240,  -240,     0,
+       0,     0,   321,  -240,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -241,     0,     0,  -241,     0,     0,  -240,  -240,
+    -240,  -241,     0,     0,     0,     0,     0,     0,     0,  -241,
+       0,  -240,  -240,  -240,     0,     0,     0,     0,  -241,     0,
+       0,   330,   331,   332,   333,   334,   335,     0,   336,  -240,
+       0,  -240,     0,  -240,  -240,     0,     0,  -241,     0,     0,
+       0,     0,     0,  -241,     0,     0,   316,  -241,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -241,     0,
+       0,  -241,     0,  -241,  -241,     0,     0,     0,  -241,     0,
+    -241,  -241,     0,  -241,  -241,  -241,     0,     0,     0,     0,
+       0,     0,  -241,     0,  -241,     0,  -241,  -241,     0,     0,
        0,  -241,  -241,  -241,     0,     0,     0,     0,     0,     0,
-    -241,     0,  -241,     0,  -241,  -241,     0,     0,     0,  -241,
-    -241,  -241,     0,     0,     0,     0,     0,     0,     0,  -241,
-       0,     0,  -241,  -241,     0,     0,  -241,  -241,  -241,  -241,
-       0,  -241,     0,     0,     0,  -241,     0,     0,  -241,  -241,
-       0,  -241,  -241,     0,     0,     0,  -241,  -241,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -241,  -241,  -241,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -241,  -241,  -241,  -241,  -241,
-       0,     0,  -241,  -241,     0,  -241,  -241,  -241,  -241,  -241,
-    -241,  -242,  -241,  -241,  -242,  -241,     0,  -241,  -241,     0,
-    -242,     0,     0,     0,     0,     0,     0,     0,  -242,     0,
-       0,     0,     0,     0,     0,     0,     0,  -242,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -242,     0,     0,     0,
-       0,     0,  -242,     0,     0,  -242,  -242,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -242,     0,     0,
-    -242,     0,  -242,  -242,     0,     0,     0,  -242,     0,  -242,
-    -242,     0,  -242,  -242,  -242,     0,     0,     0,     0,     0,
-       0,  -242,     0,  -242,     0,  -242,  -242,     0,     0,     0,
-    -242,  -242,  -242,     0,     0,     0,     0,     0,     0,     0,
-    -242,     0,     0,  -242,  -242,     0,     0,  -242,  -242,  -242,
-    -242,     0,  -242,     0,     0,     0,  -242,     0,     0,  -242,
-    -242,     0,  -242,  -242,     0,     0,     0,  -242,  -242,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -275,
-       0,     0,  -275,  -242,  -242,  -242,     0,     0,  -275,     0,
-       0,     0,     0,     0,     0,     0,  -242,  -242,  -242,  -242,
-    -242,     0,     0,  -242,  -242,  -275,  -242,  -242,  -242,  -242,
-    -242,  -242,     0,  -242,  -242,     0,  -242,     0,  -242,  -242,
-       0,     0,     0,     0,  -275,     0,     0,     0,     0,     0,
-    -275,  -151,     0,   311,  -275,     0,     0,     0,     0,     0,
-    -151,     0,     0,     0,     0,  -275,     0,     0,  -275,     0,
-    -275,  -275,     0,     0,     0,  -275,     0,  -275,  -275,     0,
-    -275,  -275,  -275,     0,     0,     0,     0,     0,     0,  -275,
-       0,  -275,     0,  -275,  -275,     0,  -151,     0,  -275,  -275,
-     312,     0,     0,     0,     0,     0,  -151,     0,  -275,     0,
-       0,  -275,  -275,     0,     0,  -275,  -275,  -275,  -275,     0,
-     414,     0,     0,  -151,  -275,     0,     0,  -151,   315,     0,
-    -275,  -275,  -151,     0,     0,   316,   317,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -275,  -275,  -275,  -151,     0,     0,   308,     0,     0,
-    -151,     0,     0,     0,   318,   319,   320,   321,   322,     0,
-       0,   323,   324,   309,   325,   326,   327,   328,   329,   330,
-    -234,   331,  -275,  -234,  -275,     0,  -275,  -275,     0,  -234,
-       0,     0,     0,     0,     0,     0,     0,  -234,     0,     0,
-       0,     0,     0,     0,     0,     0,  -234,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -234,     0,     0,     0,     0,
-       0,  -234,     0,     0,   311,  -234,  -151,     0,  -151,     0,
-       0,     0,     0,     0,     0,     0,  -234,     0,     0,  -234,
-       0,  -234,  -234,     0,     0,     0,  -234,     0,  -234,  -234,
-       0,  -234,  -234,  -234,     0,     0,     0,     0,     0,     0,
-    -234,     0,  -234,     0,  -234,  -234,     0,     0,     0,  -234,
-    -234,  -234,  -150,     0,     0,     0,     0,     0,     0,  -234,
-       0,  -150,  -234,  -234,     0,     0,  -234,  -234,  -234,  -234,
-       0,  -234,     0,     0,     0,  -234,     0,     0,  -234,   315,
-       0,  -234,  -234,     0,     0,     0,   316,  -234,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -150,     0,     0,
-       0,     0,     0,     0,     0,     0,  -235,  -150,     0,  -235,
-       0,     0,  -234,  -234,  -234,  -235,     0,     0,     0,     0,
-       0,   544,     0,  -235,  -150,  -234,  -234,  -234,  -150,     0,
-       0,     0,  -235,  -150,     0,   325,   326,   327,   328,   329,
-     330,     0,   331,  -234,     0,  -234,     0,  -234,  -234,     0,
-       0,  -235,     0,     0,     0,     0,     0,  -235,     0,     0,
-     311,  -235,     0,     0,     0,  -150,     0,     0,     0,     0,
-       0,  -150,  -235,     0,     0,  -235,     0,  -235,  -235,     0,
+       0,  -241,     0,     0,  -241,  -241,     0,     0,  -241,  -241,
+    -241,  -241,     0,  -241,     0,     0,     0,  -241,     0,     0,
+    -241,   320,     0,  -241,  -241,     0,     0,     0,   321,  -241,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -214,     0,
+       0,  -214,     0,     0,  -241,  -241,  -241,  -214,     0,     0,
+       0,     0,     0,     0,     0,  -214,     0,  -241,  -241,  -241,
+       0,     0,     0,     0,  -214,     0,     0,   330,   331,   332,
+     333,   334,   335,     0,   336,  -241,     0,  -241,     0,  -241,
+    -241,     0,     0,  -214,     0,     0,     0,     0,     0,  -214,
+       0,     0,   316,  -214,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -214,     0,     0,  -214,     0,  -214,
+    -214,     0,     0,     0,  -214,     0,  -214,  -214,     0,  -214,
+    -214,  -214,     0,     0,     0,     0,     0,  -131,  -214,     0,
+    -214,     0,  -214,  -214,     0,     0,  -131,  -214,  -214,     0,
+       0,     0,     0,     0,     0,     0,     0,  -214,     0,     0,
+    -214,  -214,     0,     0,  -214,  -214,  -214,  -214,     0,  -214,
+       0,     0,     0,  -214,     0,     0,  -214,   320,     0,  -214,
+    -214,     0,  -131,     0,   321,     0,     0,     0,     0,     0,
+       0,     0,  -131,     0,     0,  -131,     0,  -216,     0,     0,
+    -216,     0,     0,     0,     0,     0,  -216,     0,     0,  -131,
+    -214,  -214,  -214,  -131,  -216,     0,     0,     0,  -131,     0,
+       0,     0,     0,  -216,     0,     0,   326,   327,     0,     0,
+     328,   329,     0,   330,   331,   332,   333,   334,   335,     0,
+     336,  -214,  -216,  -214,     0,  -214,  -214,     0,  -216,     0,
+    -131,   316,  -216,     0,     0,     0,  -131,     0,     0,     0,
+       0,     0,     0,  -216,     0,     0,  -216,     0,  -216,  -216,
+    -131,     0,     0,  -216,     0,  -216,  -216,     0,  -216,  -216,
+    -216,     0,     0,     0,     0,     0,     0,  -216,     0,  -216,
+       0,  -216,  -216,     0,     0,     0,  -216,  -216,     0,     0,
+       0,     0,     0,     0,     0,     0,  -216,     0,     0,  -216,
+    -216,     0,     0,  -216,  -216,  -216,  -216,     0,  -216,     0,
+       0,     0,  -216,     0,     0,  -216,   320,     0,  -216,  -216,
+       0,  -131,  -131,   321,  -131,  -131,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -235,     0,     0,  -235,
+       0,     0,     0,     0,     0,  -235,     0,     0,     0,  -216,
+    -216,  -216,     0,  -235,     0,     0,     0,     0,     0,     0,
+       0,     0,  -235,     0,     0,   326,   327,     0,     0,   328,
+     329,     0,   330,   331,   332,   333,   334,   335,     0,   336,
+    -216,  -235,  -216,     0,  -216,  -216,     0,  -235,     0,     0,
+     316,  -235,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -235,     0,     0,  -235,     0,  -235,  -235,     0,
        0,     0,  -235,     0,  -235,  -235,     0,  -235,  -235,  -235,
-       0,     0,     0,     0,     0,     0,  -235,     0,  -235,     0,
-    -235,  -235,     0,     0,     0,  -235,  -235,  -235,     0,     0,
+       0,     0,     0,     0,     0,  -130,  -235,     0,  -235,     0,
+    -235,  -235,     0,     0,  -130,  -235,  -235,     0,     0,     0,
        0,     0,     0,     0,     0,  -235,     0,     0,  -235,  -235,
        0,     0,  -235,  -235,  -235,  -235,     0,  -235,     0,     0,
-       0,  -235,     0,     0,  -235,   315,     0,  -235,  -235,     0,
-       0,     0,   316,  -235,     0,     0,     0,  -150,     0,  -150,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -236,     0,     0,  -236,     0,     0,  -235,  -235,
-    -235,  -236,     0,     0,     0,     0,     0,     0,     0,  -236,
-       0,  -235,  -235,  -235,     0,     0,     0,     0,  -236,     0,
-       0,   325,   326,   327,   328,   329,   330,     0,   331,  -235,
-       0,  -235,     0,  -235,  -235,     0,     0,  -236,     0,     0,
-       0,     0,     0,  -236,     0,     0,   311,  -236,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -236,     0,
-       0,  -236,     0,  -236,  -236,     0,     0,     0,  -236,     0,
-    -236,  -236,     0,  -236,  -236,  -236,     0,     0,     0,     0,
-       0,     0,  -236,     0,  -236,     0,  -236,  -236,     0,     0,
-       0,  -236,  -236,  -236,     0,     0,     0,     0,     0,     0,
-       0,  -236,     0,     0,  -236,  -236,     0,     0,  -236,  -236,
-    -236,  -236,     0,  -236,     0,     0,     0,  -236,     0,     0,
-    -236,   315,     0,  -236,  -236,     0,     0,     0,   316,  -236,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -237,     0,
-       0,  -237,     0,     0,  -236,  -236,  -236,  -237,     0,     0,
-       0,     0,     0,     0,     0,  -237,     0,  -236,  -236,  -236,
-       0,     0,     0,     0,  -237,     0,     0,   325,   326,   327,
-     328,   329,   330,     0,   331,  -236,     0,  -236,     0,  -236,
-    -236,     0,     0,  -237,     0,     0,     0,     0,     0,  -237,
-       0,     0,   311,  -237,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -237,     0,     0,  -237,     0,  -237,
-    -237,     0,     0,     0,  -237,     0,  -237,  -237,     0,  -237,
-    -237,  -237,     0,     0,     0,     0,     0,     0,  -237,     0,
-    -237,     0,  -237,  -237,     0,     0,     0,  -237,  -237,  -237,
-       0,     0,     0,     0,     0,     0,     0,  -237,     0,     0,
-    -237,  -237,     0,     0,  -237,  -237,  -237,  -237,     0,  -237,
-       0,     0,     0,  -237,     0,     0,  -237,   315,     0,  -237,
-    -237,     0,     0,     0,   316,  -237,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -213,     0,     0,  -213,     0,     0,
-    -237,  -237,  -237,  -213,     0,     0,     0,     0,     0,     0,
-       0,  -213,     0,  -237,  -237,  -237,     0,     0,     0,     0,
-    -213,     0,     0,   325,   326,   327,   328,   329,   330,     0,
-     331,  -237,     0,  -237,     0,  -237,  -237,     0,     0,  -213,
-       0,     0,     0,     0,     0,  -213,     0,     0,   311,  -213,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -213,     0,     0,  -213,     0,  -213,  -213,     0,     0,     0,
-    -213,     0,  -213,  -213,     0,  -213,  -213,  -213,     0,     0,
-       0,     0,     0,  -131,  -213,     0,  -213,     0,  -213,  -213,
-       0,     0,  -131,  -213,  -213,     0,     0,     0,     0,     0,
-       0,     0,     0,  -213,     0,     0,  -213,  -213,     0,     0,
-    -213,  -213,  -213,  -213,     0,  -213,     0,     0,     0,  -213,
-       0,     0,  -213,   315,     0,  -213,  -213,     0,  -131,     0,
-     316,     0,     0,     0,     0,     0,     0,     0,  -131,     0,
-       0,  -131,     0,  -215,     0,     0,  -215,     0,     0,     0,
-       0,     0,  -215,     0,     0,  -131,  -213,  -213,  -213,  -131,
-    -215,     0,     0,     0,  -131,     0,     0,     0,     0,  -215,
-       0,     0,   321,   322,     0,     0,   323,   324,     0,   325,
-     326,   327,   328,   329,   330,     0,   331,  -213,  -215,  -213,
-       0,  -213,  -213,     0,  -215,     0,  -131,   311,  -215,     0,
-       0,     0,  -131,     0,     0,     0,     0,     0,     0,  -215,
-       0,     0,  -215,     0,  -215,  -215,  -131,     0,     0,  -215,
+       0,  -235,     0,     0,  -235,   320,     0,  -235,  -235,     0,
+    -130,     0,   321,     0,     0,     0,     0,     0,     0,     0,
+    -130,     0,     0,  -130,     0,  -236,     0,     0,  -236,     0,
+       0,     0,     0,     0,  -236,     0,     0,  -130,  -235,  -235,
+    -235,  -130,  -236,     0,     0,     0,  -130,     0,     0,     0,
+       0,  -236,     0,     0,   326,   327,     0,     0,   328,   329,
+       0,   330,   331,   332,   333,   334,   335,     0,   336,  -235,
+    -236,  -235,     0,  -235,  -235,     0,  -236,     0,  -130,   316,
+    -236,     0,     0,     0,  -130,     0,     0,     0,     0,     0,
+       0,  -236,     0,     0,  -236,     0,  -236,  -236,  -130,     0,
+       0,  -236,     0,  -236,  -236,     0,  -236,  -236,  -236,     0,
+       0,     0,     0,     0,     0,  -236,     0,  -236,     0,  -236,
+    -236,     0,     0,     0,  -236,  -236,     0,     0,     0,     0,
+       0,     0,     0,     0,  -236,     0,     0,  -236,  -236,     0,
+       0,  -236,  -236,  -236,  -236,     0,  -236,     0,     0,     0,
+    -236,     0,     0,  -236,   320,     0,  -236,  -236,     0,  -130,
+    -130,   321,  -130,  -130,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -237,     0,     0,  -237,     0,     0,
+       0,     0,     0,  -237,     0,     0,     0,  -236,  -236,  -236,
+       0,  -237,     0,     0,     0,     0,     0,     0,     0,     0,
+    -237,     0,     0,   326,   327,     0,     0,   328,   329,     0,
+     330,   331,   332,   333,   334,   335,     0,   336,  -236,  -237,
+    -236,     0,  -236,  -236,     0,  -237,     0,     0,   316,  -237,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -237,     0,     0,  -237,     0,  -237,  -237,     0,     0,     0,
+    -237,     0,  -237,  -237,     0,  -237,  -237,  -237,     0,     0,
+       0,     0,     0,     0,  -237,     0,  -237,     0,  -237,  -237,
+       0,     0,     0,  -237,  -237,     0,     0,     0,     0,     0,
+       0,     0,     0,  -237,     0,     0,  -237,  -237,     0,     0,
+    -237,  -237,  -237,  -237,     0,  -237,     0,     0,     0,  -237,
+       0,     0,  -237,   320,     0,  -237,  -237,     0,     0,     0,
+     321,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -215,     0,     0,  -215,     0,     0,     0,
+       0,     0,  -215,     0,     0,     0,  -237,  -237,  -237,     0,
+    -215,     0,     0,     0,     0,     0,     0,     0,     0,  -215,
+       0,     0,   326,   327,     0,     0,   328,   329,     0,   330,
+     331,   332,   333,   334,   335,     0,   336,  -237,  -215,  -237,
+       0,  -237,  -237,     0,  -215,     0,     0,   316,  -215,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -215,
+       0,     0,  -215,     0,  -215,  -215,     0,     0,     0,  -215,
        0,  -215,  -215,     0,  -215,  -215,  -215,     0,     0,     0,
        0,     0,     0,  -215,     0,  -215,     0,  -215,  -215,     0,
        0,     0,  -215,  -215,     0,     0,     0,     0,     0,     0,
        0,     0,  -215,     0,     0,  -215,  -215,     0,     0,  -215,
     -215,  -215,  -215,     0,  -215,     0,     0,     0,  -215,     0,
-       0,  -215,   315,     0,  -215,  -215,     0,  -131,  -131,   316,
-    -131,  -131,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -231,     0,     0,  -231,     0,     0,     0,     0,
-       0,  -231,     0,     0,     0,  -215,  -215,  -215,     0,  -231,
-       0,     0,     0,     0,     0,     0,     0,     0,  -231,     0,
-       0,   321,   322,     0,     0,   323,   324,     0,   325,   326,
-     327,   328,   329,   330,     0,   331,  -215,  -231,  -215,     0,
-    -215,  -215,     0,  -231,     0,     0,   311,  -231,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -231,     0,
-       0,  -231,     0,  -231,  -231,     0,     0,     0,  -231,     0,
-    -231,  -231,     0,  -231,  -231,  -231,     0,     0,     0,     0,
-       0,  -130,  -231,     0,  -231,     0,  -231,  -231,     0,     0,
-    -130,  -231,  -231,     0,     0,     0,     0,     0,     0,     0,
-       0,  -231,     0,     0,  -231,  -231,     0,     0,  -231,  -231,
-    -231,  -231,     0,  -231,     0,     0,     0,  -231,     0,     0,
-    -231,   315,     0,  -231,  -231,     0,  -130,     0,   316,     0,
-       0,     0,     0,     0,     0,     0,  -130,     0,     0,  -130,
-       0,  -232,     0,     0,  -232,     0,     0,     0,     0,     0,
-    -232,     0,     0,  -130,  -231,  -231,  -231,  -130,  -232,     0,
-       0,     0,  -130,     0,     0,     0,     0,  -232,     0,     0,
-     321,   322,     0,     0,   323,   324,     0,   325,   326,   327,
-     328,   329,   330,     0,   331,  -231,  -232,  -231,     0,  -231,
-    -231,     0,  -232,     0,  -130,   311,  -232,     0,     0,     0,
-    -130,     0,     0,     0,     0,     0,     0,  -232,     0,     0,
-    -232,     0,  -232,  -232,  -130,     0,     0,  -232,     0,  -232,
-    -232,     0,  -232,  -232,  -232,     0,     0,     0,     0,     0,
-       0,  -232,     0,  -232,     0,  -232,  -232,     0,     0,     0,
-    -232,  -232,     0,     0,     0,     0,     0,     0,     0,     0,
-    -232,     0,     0,  -232,  -232,     0,     0,  -232,  -232,  -232,
-    -232,     0,  -232,     0,     0,     0,  -232,     0,     0,  -232,
-     315,     0,  -232,  -232,     0,  -130,  -130,   316,  -130,  -130,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -233,     0,     0,  -233,     0,     0,     0,     0,     0,  -233,
-       0,     0,     0,  -232,  -232,  -232,     0,  -233,     0,     0,
-       0,     0,     0,     0,     0,     0,  -233,     0,     0,   321,
-     322,     0,     0,   323,   324,     0,   325,   326,   327,   328,
-     329,   330,     0,   331,  -232,  -233,  -232,     0,  -232,  -232,
-       0,  -233,     0,     0,   311,  -233,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -233,     0,     0,  -233,
-       0,  -233,  -233,     0,     0,     0,  -233,     0,  -233,  -233,
-       0,  -233,  -233,  -233,     0,     0,     0,     0,     0,     0,
-    -233,     0,  -233,     0,  -233,  -233,     0,     0,     0,  -233,
-    -233,     0,     0,     0,     0,     0,     0,     0,     0,  -233,
-       0,     0,  -233,  -233,     0,     0,  -233,  -233,  -233,  -233,
-       0,  -233,     0,     0,     0,  -233,     0,     0,  -233,   315,
-       0,  -233,  -233,     0,     0,     0,   316,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -214,
-       0,     0,  -214,     0,     0,     0,     0,     0,  -214,     0,
-       0,     0,  -233,  -233,  -233,     0,  -214,     0,     0,     0,
-       0,     0,     0,     0,     0,  -214,     0,     0,   321,   322,
-       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
-     330,     0,   331,  -233,  -214,  -233,     0,  -233,  -233,     0,
-    -214,     0,     0,   311,  -214,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -214,     0,     0,  -214,     0,
-    -214,  -214,     0,     0,     0,  -214,     0,  -214,  -214,     0,
-    -214,  -214,  -214,     0,     0,     0,     0,     0,     0,  -214,
-       0,  -214,     0,  -214,  -214,     0,     0,     0,  -214,  -214,
-       0,     0,     0,     0,     0,     0,     0,     0,  -214,     0,
-       0,  -214,  -214,     0,     0,  -214,  -214,  -214,  -214,     0,
-    -214,     0,     0,     0,  -214,     0,     0,  -214,   315,     0,
-    -214,  -214,     0,     0,     0,   316,     0,     0,     0,     0,
+       0,  -215,   320,     0,  -215,  -215,     0,     0,     0,   321,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -185,     0,     0,  -185,     0,     0,     0,     0,
+    -147,  -185,     0,     0,     0,  -215,  -215,  -215,     0,  -147,
        0,     0,     0,     0,     0,     0,     0,     0,  -185,     0,
-       0,  -185,     0,     0,     0,     0,  -147,  -185,     0,     0,
-       0,  -214,  -214,  -214,     0,  -147,     0,     0,     0,     0,
-       0,     0,     0,     0,  -185,     0,     0,   321,   322,     0,
-       0,   323,   324,     0,   325,   326,   327,   328,   329,   330,
-       0,   331,  -214,  -185,  -214,     0,  -214,  -214,     0,  -185,
-       0,  -147,     0,  -185,     0,     0,     0,     0,     0,     0,
-       0,  -147,     0,     0,  -185,     0,     0,  -185,     0,  -185,
-    -185,     0,     0,     0,  -185,  -147,  -185,  -185,  -147,  -185,
-    -185,  -185,  -147,     0,     0,     0,     0,  -147,  -185,     0,
-    -185,     0,  -185,  -185,     0,     0,     0,  -185,  -185,     0,
-       0,     0,     0,     0,     0,     0,     0,  -185,     0,     0,
-    -185,  -185,     0,     0,  -185,  -185,  -185,  -185,     0,  -147,
-       0,     0,   308,  -185,     0,  -147,     0,     0,  -187,  -185,
-    -185,  -187,     0,     0,     0,     0,     0,  -187,   309,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -187,     0,     0,     0,     0,     0,
-    -185,  -185,  -185,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -187,     0,     0,     0,     0,     0,  -187,
-       0,     0,     0,  -187,     0,     0,     0,     0,     0,     0,
-       0,  -185,     0,  -185,  -187,  -185,  -185,  -187,     0,  -187,
-    -187,  -147,     0,  -147,  -187,     0,  -187,  -187,     0,  -187,
-    -187,  -187,     0,     0,     0,     0,     0,     0,  -187,     0,
-    -187,     0,  -187,  -187,     0,     0,     0,  -187,  -187,     0,
-       0,     0,     0,     0,     0,     0,     0,  -187,     0,     0,
-    -187,  -187,     0,     0,  -187,  -187,  -187,  -187,     0,     0,
-       0,     0,     0,  -187,     0,     0,     0,     0,  -186,  -187,
-    -187,  -186,     0,     0,     0,     0,     0,  -186,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -186,     0,     0,     0,     0,     0,
-    -187,  -187,  -187,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -186,     0,     0,     0,     0,     0,  -186,
-       0,     0,     0,  -186,     0,     0,     0,     0,     0,     0,
-       0,  -187,     0,  -187,  -186,  -187,  -187,  -186,     0,  -186,
-    -186,     0,     0,     0,  -186,     0,  -186,  -186,     0,  -186,
-    -186,  -186,     0,     0,     0,     0,     0,     0,  -186,     0,
-    -186,     0,  -186,  -186,     0,     0,     0,  -186,  -186,     0,
+       0,   326,   327,     0,     0,   328,   329,     0,   330,   331,
+     332,   333,   334,   335,     0,   336,  -215,  -185,  -215,     0,
+    -215,  -215,     0,  -185,     0,  -147,     0,  -185,     0,     0,
+       0,     0,     0,     0,     0,  -147,     0,     0,  -185,     0,
+       0,  -185,     0,  -185,  -185,     0,     0,     0,  -185,  -147,
+    -185,  -185,  -147,  -185,  -185,  -185,  -147,     0,     0,     0,
+       0,  -147,  -185,     0,  -185,     0,  -185,  -185,     0,     0,
+       0,  -185,  -185,     0,     0,     0,     0,     0,     0,     0,
+       0,  -185,     0,     0,  -185,  -185,     0,     0,  -185,  -185,
+    -185,  -185,     0,  -147,     0,     0,   313,  -185,     0,  -147,
+       0,     0,  -186,  -185,  -185,  -186,     0,     0,     0,     0,
+       0,  -186,   314,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -186,     0,
+       0,     0,     0,     0,  -185,  -185,  -185,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,  -186,     0,     0,
-    -186,  -186,     0,     0,  -186,  -186,  -186,  -186,     0,     0,
-       0,     0,     0,  -186,     0,     0,     0,     0,  -184,  -186,
-    -186,  -184,     0,     0,     0,     0,     0,  -184,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -184,     0,     0,     0,     0,     0,
-    -186,  -186,  -186,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -184,     0,     0,     0,     0,     0,  -184,
-       0,     0,     0,  -184,     0,     0,     0,     0,     0,     0,
-       0,  -186,     0,  -186,  -184,  -186,  -186,  -184,     0,  -184,
-    -184,     0,     0,     0,  -184,     0,  -184,  -184,     0,  -184,
-    -184,  -184,     0,     0,     0,     0,     0,     0,  -184,     0,
-    -184,     0,  -184,  -184,     0,     0,     0,  -184,  -184,     0,
+       0,     0,     0,  -186,     0,     0,     0,  -186,     0,     0,
+       0,     0,     0,     0,     0,  -185,     0,  -185,  -186,  -185,
+    -185,  -186,     0,  -186,  -186,  -147,     0,  -147,  -186,     0,
+    -186,  -186,     0,  -186,  -186,  -186,     0,     0,     0,     0,
+       0,     0,  -186,     0,  -186,     0,  -186,  -186,     0,     0,
+       0,  -186,  -186,     0,     0,     0,     0,     0,     0,     0,
+       0,  -186,     0,     0,  -186,  -186,     0,     0,  -186,  -186,
+    -186,  -186,     0,     0,     0,     0,     0,  -186,     0,     0,
+       0,     0,  -188,  -186,  -186,  -188,     0,     0,     0,     0,
+       0,  -188,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -188,     0,
+       0,     0,     0,     0,  -186,  -186,  -186,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -188,     0,     0,
+       0,     0,     0,  -188,     0,     0,     0,  -188,     0,     0,
+       0,     0,     0,     0,     0,  -186,     0,  -186,  -188,  -186,
+    -186,  -188,     0,  -188,  -188,     0,     0,     0,  -188,     0,
+    -188,  -188,     0,  -188,  -188,  -188,     0,     0,     0,     0,
+       0,     0,  -188,     0,  -188,     0,  -188,  -188,     0,     0,
+       0,  -188,  -188,     0,     0,     0,     0,     0,     0,     0,
+       0,  -188,     0,     0,  -188,  -188,     0,     0,  -188,  -188,
+    -188,  -188,     0,     0,     0,     0,     0,  -188,     0,     0,
+       0,     0,  -187,  -188,  -188,  -187,     0,     0,     0,     0,
+       0,  -187,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -187,     0,
+       0,     0,     0,     0,  -188,  -188,  -188,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -187,     0,     0,
+       0,     0,     0,  -187,     0,     0,     0,  -187,     0,     0,
+       0,     0,     0,     0,     0,  -188,     0,  -188,  -187,  -188,
+    -188,  -187,     0,  -187,  -187,     0,     0,     0,  -187,     0,
+    -187,  -187,     0,  -187,  -187,  -187,     0,     0,     0,     0,
+       0,     0,  -187,     0,  -187,     0,  -187,  -187,     0,     0,
+       0,  -187,  -187,     0,     0,     0,     0,     0,     0,     0,
+       0,  -187,     0,     0,  -187,  -187,     0,     0,  -187,  -187,
+    -187,  -187,     0,     0,     0,     0,     0,  -187,     0,     0,
+       0,     0,  -184,  -187,  -187,  -184,     0,     0,     0,     0,
+       0,  -184,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -184,     0,
+       0,     0,     0,     0,  -187,  -187,  -187,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,  -184,     0,     0,
-    -184,  -184,     0,     0,  -184,  -184,  -184,  -184,     0,     0,
-       0,     0,     0,  -184,     0,     0,     0,     0,  -217,  -184,
-    -184,  -217,     0,     0,     0,     0,     0,  -217,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -217,     0,     0,     0,     0,     0,
-    -184,  -184,  -184,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -217,     0,     0,     0,     0,     0,  -217,
-       0,     0,     0,  -217,     0,     0,     0,     0,     0,     0,
-       0,  -184,     0,  -184,  -217,  -184,  -184,  -217,     0,  -217,
-    -217,     0,     0,     0,  -217,     0,  -217,  -217,     0,  -217,
-    -217,  -217,     0,     0,     0,     0,     0,     0,  -217,     0,
-    -217,     0,  -217,  -217,     0,     0,     0,  -217,  -217,     0,
-       0,     0,     0,     0,     0,     0,     0,  -217,     0,     0,
-    -217,  -217,     0,     0,  -217,  -217,  -217,  -217,     0,     0,
-       0,     0,     0,  -217,     0,     0,     0,     0,  -218,  -217,
-    -217,  -218,     0,     0,     0,     0,     0,  -218,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -218,     0,     0,     0,     0,     0,
-    -217,  -217,  -217,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -218,     0,     0,     0,     0,     0,  -218,
-       0,     0,     0,  -218,     0,     0,     0,     0,     0,     0,
-       0,  -217,     0,  -217,  -218,  -217,  -217,  -218,     0,  -218,
-    -218,     0,     0,     0,  -218,     0,  -218,  -218,     0,  -218,
-    -218,  -218,     0,     0,     0,     0,     0,     0,  -218,     0,
-    -218,     0,  -218,  -218,     0,     0,     0,  -218,  -218,     0,
-       0,     0,     0,     0,     0,     0,     0,  -218,     0,     0,
-    -218,  -218,     0,     0,   308,  -218,  -218,  -218,     0,     0,
-       0,     0,     0,  -218,     0,     0,     0,     0,  -229,  -218,
-    -218,  -229,     0,     0,     0,     0,     0,  -229,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -229,     0,     0,     0,     0,     0,
-    -218,  -218,  -218,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -229,     0,     0,     0,     0,     0,  -229,
-       0,     0,     0,  -229,     0,     0,     0,     0,     0,     0,
-       0,  -218,     0,  -218,  -229,  -218,  -218,  -229,     0,  -229,
-    -229,     0,     0,     0,  -229,     0,  -229,  -229,     0,  -229,
-    -229,  -229,     0,     0,     0,     0,     0,     0,  -229,     0,
-    -229,     0,  -229,  -229,     0,     0,     0,  -229,  -229,     0,
-       0,     0,     0,     0,     0,     0,     0,  -229,     0,     0,
-    -229,  -229,     0,     0,  -229,  -229,  -229,  -229,     0,     0,
-       0,     0,     0,  -229,     0,     0,     0,     0,  -230,  -229,
-    -229,  -230,     0,     0,     0,     0,     0,  -230,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -230,     0,     0,     0,     0,     0,
-    -229,  -229,  -229,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -230,     0,     0,     0,     0,     0,  -230,
-       0,     0,     0,  -230,     0,     0,     0,     0,     0,     0,
-       0,  -229,     0,  -229,  -230,  -229,  -229,  -230,     0,  -230,
-    -230,     0,     0,     0,  -230,     0,  -230,  -230,     0,  -230,
-    -230,  -230,     0,     0,     0,     0,     0,     0,  -230,     0,
-    -230,     0,  -230,  -230,     0,     0,     0,  -230,  -230,     0,
-       0,     0,     0,     0,     0,     0,     0,  -230,     0,     0,
-    -230,  -230,     0,     0,  -230,  -230,  -230,  -230,     0,     0,
-       0,     0,     0,  -230,     0,     0,     0,     0,  -221,  -230,
-    -230,  -221,     0,     0,     0,     0,     0,  -221,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -221,     0,     0,     0,     0,     0,
-    -230,  -230,  -230,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -221,     0,     0,     0,     0,     0,  -221,
-       0,     0,     0,  -221,     0,     0,     0,     0,     0,     0,
-       0,  -230,     0,  -230,  -221,  -230,  -230,  -221,     0,  -221,
-    -221,     0,     0,     0,  -221,     0,  -221,  -221,     0,  -221,
-    -221,  -221,     0,     0,     0,     0,     0,     0,  -221,     0,
-    -221,     0,  -221,  -221,     0,     0,     0,  -221,  -221,     0,
-       0,     0,     0,     0,     0,     0,     0,  -221,     0,     0,
-    -221,  -221,     0,     0,  -221,  -221,  -221,  -221,     0,     0,
-       0,     0,     0,  -221,     0,     0,     0,     0,  -219,  -221,
-    -221,  -219,     0,     0,     0,     0,     0,  -219,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -219,     0,     0,     0,     0,     0,
-    -221,  -221,  -221,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -219,     0,     0,     0,     0,     0,  -219,
-       0,     0,     0,  -219,     0,     0,     0,     0,     0,     0,
-       0,  -221,     0,  -221,  -219,  -221,  -221,  -219,     0,  -219,
-    -219,     0,     0,     0,  -219,     0,  -219,  -219,     0,  -219,
-    -219,  -219,     0,     0,     0,     0,     0,     0,  -219,     0,
-    -219,     0,  -219,  -219,     0,     0,     0,  -219,  -219,     0,
-       0,     0,     0,     0,     0,     0,     0,  -219,     0,     0,
-    -219,  -219,     0,     0,  -219,  -219,  -219,  -219,     0,     0,
-       0,     0,     0,  -219,     0,     0,     0,     0,  -222,  -219,
-    -219,  -222,     0,     0,     0,     0,     0,  -222,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -222,     0,     0,     0,     0,     0,
-    -219,  -219,  -219,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -222,     0,     0,     0,     0,     0,  -222,
-       0,     0,     0,  -222,     0,     0,     0,     0,     0,     0,
-       0,  -219,     0,  -219,  -222,  -219,  -219,  -222,     0,  -222,
-    -222,     0,     0,     0,  -222,     0,  -222,  -222,     0,  -222,
-    -222,  -222,     0,     0,     0,     0,     0,     0,  -222,     0,
-    -222,     0,  -222,  -222,     0,     0,     0,  -222,  -222,     0,
+       0,     0,     0,  -184,     0,     0,     0,  -184,     0,     0,
+       0,     0,     0,     0,     0,  -187,     0,  -187,  -184,  -187,
+    -187,  -184,     0,  -184,  -184,     0,     0,     0,  -184,     0,
+    -184,  -184,     0,  -184,  -184,  -184,     0,     0,     0,     0,
+       0,     0,  -184,     0,  -184,     0,  -184,  -184,     0,     0,
+       0,  -184,  -184,     0,     0,     0,     0,     0,     0,     0,
+       0,  -184,     0,     0,  -184,  -184,     0,     0,  -184,  -184,
+    -184,  -184,     0,     0,     0,     0,     0,  -184,     0,     0,
+       0,     0,  -222,  -184,  -184,  -222,     0,     0,     0,     0,
+       0,  -222,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -222,     0,
+       0,     0,     0,     0,  -184,  -184,  -184,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,  -222,     0,     0,
-    -222,  -222,     0,     0,  -222,  -222,  -222,  -222,     0,     0,
-       0,     0,     0,  -222,     0,     0,     0,     0,  -220,  -222,
-    -222,  -220,     0,     0,     0,     0,     0,  -220,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -220,     0,     0,     0,     0,     0,
-    -222,  -222,  -222,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -220,     0,     0,     0,     0,     0,  -220,
-       0,     0,     0,  -220,     0,     0,     0,     0,     0,     0,
-       0,  -222,     0,  -222,  -220,  -222,  -222,  -220,     0,  -220,
-    -220,     0,     0,     0,  -220,     0,  -220,  -220,     0,  -220,
-    -220,  -220,     0,     0,     0,     0,     0,     0,  -220,     0,
-    -220,     0,  -220,  -220,     0,     0,     0,  -220,  -220,     0,
+       0,     0,     0,  -222,     0,     0,     0,  -222,     0,     0,
+       0,     0,     0,     0,     0,  -184,     0,  -184,  -222,  -184,
+    -184,  -222,     0,  -222,  -222,     0,     0,     0,  -222,     0,
+    -222,  -222,     0,  -222,  -222,  -222,     0,     0,     0,     0,
+       0,     0,  -222,     0,  -222,     0,  -222,  -222,     0,     0,
+       0,  -222,  -222,     0,     0,     0,     0,     0,     0,     0,
+       0,  -222,     0,     0,  -222,  -222,     0,     0,  -222,  -222,
+    -222,  -222,     0,     0,     0,     0,     0,  -222,     0,     0,
+       0,     0,  -221,  -222,  -222,  -221,     0,     0,     0,     0,
+       0,  -221,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -221,     0,
+       0,     0,     0,     0,  -222,  -222,  -222,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -221,     0,     0,
+       0,     0,     0,  -221,     0,     0,     0,  -221,     0,     0,
+       0,     0,     0,     0,     0,  -222,     0,  -222,  -221,  -222,
+    -222,  -221,     0,  -221,  -221,     0,     0,     0,  -221,     0,
+    -221,  -221,     0,  -221,  -221,  -221,     0,     0,     0,     0,
+       0,     0,  -221,     0,  -221,     0,  -221,  -221,     0,     0,
+       0,  -221,  -221,     0,     0,     0,     0,     0,     0,     0,
+       0,  -221,     0,     0,  -221,  -221,     0,     0,  -221,  -221,
+    -221,  -221,     0,     0,     0,     0,     0,  -221,     0,     0,
+       0,     0,  -220,  -221,  -221,  -220,     0,     0,     0,     0,
+       0,  -220,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -220,     0,
+       0,     0,     0,     0,  -221,  -221,  -221,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,  -220,     0,     0,
-    -220,  -220,     0,     0,  -220,  -220,  -220,  -220,     0,     0,
-       0,     0,     0,  -220,     0,     0,     0,     0,     0,  -220,
-    -220,  -309,     0,     0,  -309,     0,     0,     0,     0,     0,
-    -309,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -309,     0,     0,
-    -220,  -220,  -220,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -309,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -309,     0,     0,  -309,
-       0,  -220,     0,  -220,  -309,  -220,  -220,  -309,     0,     0,
-    -309,     0,  -309,  -309,     0,     0,     0,  -309,     0,  -309,
-    -309,     0,  -309,  -309,  -309,     0,     0,     0,     0,     0,
-       0,     0,  -309,     0,     0,  -309,  -309,     0,     0,     0,
-    -309,  -309,     0,     0,     0,  -309,     0,     0,     0,  -310,
-       0,     0,  -310,     0,  -309,     0,     0,     0,  -310,     0,
-    -309,     0,  -309,     0,  -309,     0,  -309,     0,     0,     0,
-       0,     0,  -309,     0,  -309,  -310,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -310,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -310,     0,     0,  -310,     0,     0,
-    -309,  -309,  -310,     0,  -309,  -310,     0,     0,  -310,     0,
-    -310,  -310,     0,     0,     0,  -310,     0,  -310,  -310,     0,
-    -310,  -310,  -310,     0,     0,  -309,  -309,    80,  -309,  -309,
-    -310,     0,     0,  -310,  -310,     0,     0,     0,  -310,  -310,
-       0,     0,     0,  -310,     0,  -316,     0,     0,   354,     0,
-       0,     0,  -310,     0,  -316,     0,     0,     0,  -310,     0,
-    -310,     0,  -310,     0,  -310,     0,     0,     0,     0,     0,
-    -310,  -316,  -310,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -353,     0,     0,     0,     0,     0,
-    -316,     0,     0,  -353,     0,     0,     0,     0,     0,     0,
-    -316,     0,     0,     0,     0,     0,     0,     0,  -310,  -310,
-    -353,  -316,  -310,     0,  -316,     0,  -316,  -316,     0,     0,
-       0,  -316,     0,  -316,  -316,     0,  -316,  -316,  -316,  -353,
-       0,     0,     0,  -310,  -310,     0,  -310,  -310,     0,  -353,
-    -316,     0,     0,     0,  -316,  -316,     0,     0,     0,     0,
-    -353,     0,     0,  -353,     0,  -353,  -353,     0,  -316,     0,
-    -353,     0,  -353,  -353,  -316,  -353,  -353,  -353,     0,     0,
-     540,     0,     0,     0,     0,     0,  -316,     0,  -317,  -353,
-       0,     0,     0,  -353,  -353,     0,  -320,  -317,     0,   354,
-       0,     0,     0,     0,     0,  -320,     0,  -353,     0,     0,
-     308,     0,     0,  -353,  -317,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -353,   309,     0,     0,     0,
-       0,     0,     0,  -317,     0,     0,     0,     0,     0,     0,
-       0,  -320,     0,  -317,     0,     0,     0,  -320,     0,     0,
-    -316,  -320,  -316,  -316,  -317,     0,     0,  -317,     0,  -317,
-    -317,     0,     0,     0,  -317,  -320,  -317,  -317,  -320,  -317,
-    -317,  -317,  -320,     0,     0,     0,     0,  -320,     0,  -320,
-       0,     0,     0,  -317,     0,     0,     0,  -317,  -317,  -353,
-    -320,  -353,  -353,     0,     0,     0,     0,  -301,     0,     0,
-       0,  -317,     0,     0,     0,     0,  -301,  -317,     0,  -320,
-       0,     0,   308,     0,     0,  -320,     0,     0,     0,  -317,
-       0,   355,     0,  -301,     0,     0,     0,     0,   309,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -301,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -301,     0,     0,     0,     0,     0,  -320,  -320,
-    -320,     0,     0,  -301,     0,     0,  -301,     0,  -301,  -301,
-       0,     0,  -303,  -301,     0,  -301,  -301,     0,  -301,  -301,
-    -301,  -303,   616,  -317,     0,  -317,  -317,     0,     0,  -320,
-       0,  -320,  -301,  -320,  -320,     0,  -301,  -301,  -303,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -301,     0,     0,     0,     0,     0,  -301,  -303,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -303,  -301,     0,
-       0,     0,     0,  -302,     0,     0,     0,     0,  -303,     0,
-       0,  -303,  -302,  -303,  -303,     0,     0,     0,  -303,     0,
-    -303,  -303,     0,  -303,  -303,  -303,     0,     0,     0,  -302,
-       0,     0,     0,     0,     0,     0,     0,  -303,     0,     0,
-       0,  -303,  -303,     0,     0,     0,     0,     0,  -302,     0,
-       0,     0,     0,     0,     0,  -303,     0,     0,  -302,     0,
-       0,  -303,  -301,     0,  -301,  -301,     0,     0,     0,  -302,
-       0,     0,  -302,  -303,  -302,  -302,     0,     0,  -315,  -302,
-       0,  -302,  -302,     0,  -302,  -302,  -302,  -315,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -302,     0,
-       0,     0,  -302,  -302,  -315,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -302,     0,     0,     0,
-       0,     0,  -302,  -315,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -315,  -302,     0,     0,  -303,     0,  -303,
-    -303,     0,     0,     0,  -315,     0,     0,  -315,     0,  -315,
-    -315,     0,     0,     0,  -315,     0,  -315,  -315,  -307,  -315,
-    -315,  -315,     0,     0,     0,     0,     0,  -307,     0,     0,
-       0,     0,     0,  -315,     0,     0,     0,  -315,  -315,     0,
-       0,     0,     0,     0,  -307,     0,     0,     0,     0,     0,
-       0,  -315,     0,     0,     0,     0,     0,  -315,  -302,     0,
-    -302,  -302,     0,  -307,     0,     0,     0,     0,     0,  -315,
-       0,     0,     0,  -307,     0,     0,     0,     0,     0,  -313,
-       0,     0,     0,     0,  -307,     0,     0,  -307,  -313,  -307,
-    -307,     0,     0,     0,  -307,     0,  -307,  -307,     0,  -307,
-    -307,  -307,     0,     0,     0,  -313,     0,     0,     0,     0,
-       0,     0,     0,  -307,     0,     0,     0,  -307,  -307,     0,
+       0,     0,     0,  -220,     0,     0,     0,  -220,     0,     0,
+       0,     0,     0,     0,     0,  -221,     0,  -221,  -220,  -221,
+    -221,  -220,     0,  -220,  -220,     0,     0,     0,  -220,     0,
+    -220,  -220,     0,  -220,  -220,  -220,     0,     0,     0,     0,
+       0,     0,  -220,     0,  -220,     0,  -220,  -220,     0,     0,
+       0,  -220,  -220,     0,     0,     0,     0,     0,     0,     0,
+       0,  -220,     0,     0,  -220,  -220,     0,     0,  -220,  -220,
+    -220,  -220,     0,     0,     0,     0,     0,  -220,     0,     0,
+       0,     0,  -218,  -220,  -220,  -218,     0,     0,     0,     0,
+       0,  -218,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -218,     0,
+       0,     0,     0,     0,  -220,  -220,  -220,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -218,     0,     0,
+       0,     0,     0,  -218,     0,     0,     0,  -218,     0,     0,
+       0,     0,     0,     0,     0,  -220,     0,  -220,  -218,  -220,
+    -220,  -218,     0,  -218,  -218,     0,     0,     0,  -218,     0,
+    -218,  -218,     0,  -218,  -218,  -218,     0,     0,     0,     0,
+       0,     0,  -218,     0,  -218,     0,  -218,  -218,     0,     0,
+       0,  -218,  -218,     0,     0,     0,     0,     0,     0,     0,
+       0,  -218,     0,     0,  -218,  -218,     0,     0,  -218,  -218,
+    -218,  -218,     0,     0,     0,     0,     0,  -218,     0,     0,
+       0,     0,  -219,  -218,  -218,  -219,     0,     0,     0,     0,
+       0,  -219,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -219,     0,
+       0,     0,     0,     0,  -218,  -218,  -218,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -219,     0,     0,
+       0,     0,     0,  -219,     0,     0,     0,  -219,     0,     0,
+       0,     0,     0,     0,     0,  -218,     0,  -218,  -219,  -218,
+    -218,  -219,     0,  -219,  -219,     0,     0,     0,  -219,     0,
+    -219,  -219,     0,  -219,  -219,  -219,     0,     0,     0,     0,
+       0,     0,  -219,     0,  -219,     0,  -219,  -219,     0,     0,
+       0,  -219,  -219,     0,     0,     0,     0,     0,     0,     0,
+       0,  -219,     0,     0,  -219,  -219,     0,     0,   313,  -219,
+    -219,  -219,     0,     0,     0,     0,     0,  -219,     0,     0,
+       0,     0,  -233,  -219,  -219,  -233,     0,     0,     0,     0,
+       0,  -233,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -233,     0,
+       0,     0,     0,     0,  -219,  -219,  -219,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -233,     0,     0,
+       0,     0,     0,  -233,     0,     0,     0,  -233,     0,     0,
+       0,     0,     0,     0,     0,  -219,     0,  -219,  -233,  -219,
+    -219,  -233,     0,  -233,  -233,     0,     0,     0,  -233,     0,
+    -233,  -233,     0,  -233,  -233,  -233,     0,     0,     0,     0,
+       0,     0,  -233,     0,  -233,     0,  -233,  -233,     0,     0,
+       0,  -233,  -233,     0,     0,     0,     0,     0,     0,     0,
+       0,  -233,     0,     0,  -233,  -233,     0,     0,  -233,  -233,
+    -233,  -233,     0,     0,     0,     0,     0,  -233,     0,     0,
+       0,     0,  -234,  -233,  -233,  -234,     0,     0,     0,     0,
+       0,  -234,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -234,     0,
+       0,     0,     0,     0,  -233,  -233,  -233,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -234,     0,     0,
+       0,     0,     0,  -234,     0,     0,     0,  -234,     0,     0,
+       0,     0,     0,     0,     0,  -233,     0,  -233,  -234,  -233,
+    -233,  -234,     0,  -234,  -234,     0,     0,     0,  -234,     0,
+    -234,  -234,     0,  -234,  -234,  -234,     0,     0,     0,     0,
+       0,     0,  -234,     0,  -234,     0,  -234,  -234,     0,     0,
+       0,  -234,  -234,     0,     0,     0,     0,     0,     0,     0,
+       0,  -234,     0,     0,  -234,  -234,     0,     0,  -234,  -234,
+    -234,  -234,     0,     0,     0,     0,     0,  -234,     0,     0,
+       0,     0,  -225,  -234,  -234,  -225,     0,     0,     0,     0,
+       0,  -225,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -225,     0,
+       0,     0,     0,     0,  -234,  -234,  -234,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -225,     0,     0,
+       0,     0,     0,  -225,     0,     0,     0,  -225,     0,     0,
+       0,     0,     0,     0,     0,  -234,     0,  -234,  -225,  -234,
+    -234,  -225,     0,  -225,  -225,     0,     0,     0,  -225,     0,
+    -225,  -225,     0,  -225,  -225,  -225,     0,     0,     0,     0,
+       0,     0,  -225,     0,  -225,     0,  -225,  -225,     0,     0,
+       0,  -225,  -225,     0,     0,     0,     0,     0,     0,     0,
+       0,  -225,     0,     0,  -225,  -225,     0,     0,  -225,  -225,
+    -225,  -225,     0,     0,     0,     0,     0,  -225,     0,     0,
+       0,     0,  -223,  -225,  -225,  -223,     0,     0,     0,     0,
+       0,  -223,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -223,     0,
+       0,     0,     0,     0,  -225,  -225,  -225,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -223,     0,     0,
+       0,     0,     0,  -223,     0,     0,     0,  -223,     0,     0,
+       0,     0,     0,     0,     0,  -225,     0,  -225,  -223,  -225,
+    -225,  -223,     0,  -223,  -223,     0,     0,     0,  -223,     0,
+    -223,  -223,     0,  -223,  -223,  -223,     0,     0,     0,     0,
+       0,     0,  -223,     0,  -223,     0,  -223,  -223,     0,     0,
+       0,  -223,  -223,     0,     0,     0,     0,     0,     0,     0,
+       0,  -223,     0,     0,  -223,  -223,     0,     0,  -223,  -223,
+    -223,  -223,     0,     0,     0,     0,     0,  -223,     0,     0,
+       0,     0,  -226,  -223,  -223,  -226,     0,     0,     0,     0,
+       0,  -226,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -226,     0,
+       0,     0,     0,     0,  -223,  -223,  -223,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -226,     0,     0,
+       0,     0,     0,  -226,     0,     0,     0,  -226,     0,     0,
+       0,     0,     0,     0,     0,  -223,     0,  -223,  -226,  -223,
+    -223,  -226,     0,  -226,  -226,     0,     0,     0,  -226,     0,
+    -226,  -226,     0,  -226,  -226,  -226,     0,     0,     0,     0,
+       0,     0,  -226,     0,  -226,     0,  -226,  -226,     0,     0,
+       0,  -226,  -226,     0,     0,     0,     0,     0,     0,     0,
+       0,  -226,     0,     0,  -226,  -226,     0,     0,  -226,  -226,
+    -226,  -226,     0,     0,     0,     0,     0,  -226,     0,     0,
+       0,     0,  -224,  -226,  -226,  -224,     0,     0,     0,     0,
+       0,  -224,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -224,     0,
+       0,     0,     0,     0,  -226,  -226,  -226,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -224,     0,     0,
+       0,     0,     0,  -224,     0,     0,     0,  -224,     0,     0,
+       0,     0,     0,     0,     0,  -226,     0,  -226,  -224,  -226,
+    -226,  -224,     0,  -224,  -224,     0,     0,     0,  -224,     0,
+    -224,  -224,     0,  -224,  -224,  -224,     0,     0,     0,     0,
+       0,     0,  -224,     0,  -224,     0,  -224,  -224,     0,     0,
+       0,  -224,  -224,     0,     0,     0,     0,     0,     0,     0,
+       0,  -224,     0,     0,  -224,  -224,     0,     0,  -224,  -224,
+    -224,  -224,     0,     0,     0,     0,     0,  -224,     0,     0,
+       0,     0,     0,  -224,  -224,  -313,     0,     0,  -313,     0,
        0,     0,     0,     0,  -313,     0,     0,     0,     0,     0,
-       0,  -307,     0,  -315,  -313,  -315,  -315,  -307,     0,   214,
-     118,   119,   120,     0,     0,  -313,     0,     0,  -313,  -307,
-    -313,  -313,     0,     0,  -304,  -313,     0,  -313,  -313,     0,
-    -313,  -313,  -313,  -304,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -313,     0,     0,     0,  -313,  -313,
-    -304,     0,   215,   216,   217,     0,     0,     0,     0,     0,
-       0,     0,  -313,     0,     0,     0,     0,     0,  -313,  -304,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -304,
-    -313,     0,     0,  -307,     0,  -307,  -307,     0,     0,     0,
-    -304,   218,     0,  -304,   122,  -304,  -304,     0,     0,     0,
-    -304,     0,  -304,  -304,  -340,  -304,  -304,  -304,     0,     0,
-     123,     0,     0,  -340,     0,     0,     0,     0,     0,  -304,
-       0,   272,     0,  -304,  -304,     0,     0,   219,     0,     0,
-    -340,     0,     0,     0,     0,     0,     0,  -304,     0,     0,
-       0,   220,     0,  -304,  -313,     0,  -313,  -313,     0,  -340,
-       0,     0,     0,     0,     0,  -304,   124,   125,   126,  -340,
-       0,     0,     0,     0,     0,  -341,     0,     0,     0,     0,
-    -340,     0,     0,  -340,  -341,  -340,  -340,     0,     0,     0,
-    -340,     0,  -340,  -340,     0,  -340,  -340,  -340,     0,     0,
-       0,  -341,   221,   222,     0,     0,     0,     0,     0,  -340,
-     223,     0,     0,  -340,  -340,   128,     0,     0,     0,     0,
-    -341,     0,     0,     0,     0,     0,     0,  -340,     0,  -304,
-    -341,  -304,  -304,  -340,     0,   214,   118,   119,   120,     0,
-       0,  -341,     0,     0,  -341,  -340,  -341,  -341,     0,     0,
-    -314,  -341,     0,  -341,  -341,     0,  -341,  -341,  -341,  -314,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -341,     0,     0,     0,  -341,  -341,  -314,     0,   215,   216,
-     217,     0,     0,     0,     0,     0,     0,     0,  -341,     0,
-       0,     0,     0,     0,  -341,  -314,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -314,  -341,     0,     0,  -340,
-       0,  -340,  -340,     0,     0,     0,  -314,   218,     0,  -314,
-     122,  -314,  -314,     0,     0,     0,  -314,     0,  -314,  -314,
-    -342,  -314,  -314,  -314,     0,     0,   123,     0,     0,  -342,
-       0,     0,     0,     0,   298,  -314,     0,     0,     0,  -314,
-    -314,     0,     0,   219,     0,     0,  -342,     0,     0,     0,
-       0,     0,     0,  -314,     0,     0,     0,   220,     0,  -314,
-    -341,     0,  -341,  -341,     0,  -342,     0,     0,     0,     0,
-       0,  -314,   124,   125,   126,  -342,     0,     0,     0,     0,
-       0,  -299,     0,     0,     0,     0,  -342,     0,     0,  -342,
-    -299,  -342,  -342,     0,     0,     0,  -342,     0,  -342,  -342,
-       0,  -342,  -342,  -342,     0,     0,     0,   531,   221,   222,
-       0,     0,     0,     0,     0,  -342,   223,     0,     0,  -342,
-    -342,   128,     0,     0,     0,     0,  -299,     0,     0,     0,
-       0,     0,     0,  -342,     0,  -314,  -299,  -314,  -314,  -342,
-       0,     0,     0,     0,     0,     0,     0,   532,     0,     0,
-    -299,  -342,   533,  -299,     0,     0,  -300,  -299,     0,   534,
-     535,     0,  -299,     0,  -299,  -300,     0,     0,     0,  -171,
-       0,     0,     0,     0,     0,     0,   536,     0,  -171,     0,
-    -352,   537,   531,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -299,     0,     0,     0,     0,     0,
-    -299,  -300,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -300,     0,     0,  -171,  -342,     0,  -342,  -342,     0,
-    -171,     0,   532,     0,  -171,  -300,     0,   533,  -300,     0,
-       0,     0,  -300,     0,   534,   535,     0,  -300,  -171,  -300,
-       0,  -171,     0,     0,  -319,  -171,     0,     0,     0,     0,
-    -171,   536,  -171,  -319,     0,  -352,   537,     0,     0,     0,
-       0,     0,     0,  -171,     0,     0,     0,     0,     0,  -300,
-       0,     0,     0,     0,     0,  -300,  -299,     0,  -299,  -305,
-       0,     0,  -171,     0,     0,     0,     0,     0,  -171,  -319,
-       0,     0,     0,     0,     0,  -319,     0,     0,     0,  -319,
-       0,  -182,     0,     0,     0,     0,     0,     0,     0,     0,
-    -182,     0,     0,  -319,     0,     0,  -319,     0,     0,     0,
-    -319,     0,     0,     0,     0,  -319,     0,  -319,     0,     0,
-       0,  -171,  -171,  -171,     0,     0,     0,     0,  -319,     0,
-       0,  -172,     0,     0,     0,     0,  -182,     0,     0,  -317,
-    -172,  -300,  -182,  -300,  -306,     0,  -182,  -319,  -317,     0,
-       0,     0,  -171,  -319,  -171,     0,  -171,  -171,     0,     0,
-    -182,     0,     0,  -182,     0,     0,     0,  -182,     0,     0,
-       0,     0,  -182,     0,  -182,     0,  -172,     0,     0,     0,
-       0,     0,  -172,     0,  -317,  -182,  -172,     0,     0,     0,
-    -317,     0,     0,  -143,  -317,     0,  -319,  -319,  -319,     0,
-    -172,     0,  -143,  -172,  -182,     0,     0,  -172,  -317,     0,
-    -182,  -317,  -172,     0,  -172,  -317,     0,     0,     0,     0,
-    -317,     0,  -317,     0,     0,  -172,     0,  -319,  -145,  -319,
-       0,  -319,  -319,  -317,     0,     0,     0,  -145,  -143,     0,
-       0,     0,     0,     0,  -172,     0,     0,     0,  -143,     0,
-    -172,     0,  -317,  -182,  -182,  -182,     0,     0,  -317,     0,
-       0,     0,  -143,     0,     0,  -143,     0,     0,     0,  -143,
-    -148,     0,     0,  -145,  -143,     0,  -143,     0,     0,  -148,
-       0,     0,     0,  -145,  -182,     0,  -182,  -143,  -182,  -182,
-    -144,     0,     0,  -172,  -172,  -172,     0,  -145,     0,  -144,
-    -145,  -317,  -317,  -317,  -145,     0,  -143,     0,     0,  -145,
-       0,  -145,  -143,     0,     0,  -148,     0,     0,     0,     0,
-       0,     0,   350,     0,  -172,  -148,  -172,     0,  -172,  -172,
-       0,     0,  -317,     0,  -317,  -144,  -317,  -317,     0,  -148,
-       0,  -145,  -148,     0,     0,  -144,  -148,  -145,     0,     0,
-       0,  -148,     0,   149,     0,  -146,     0,     0,     0,  -144,
-       0,     0,  -144,     0,  -146,     0,  -144,     0,     0,     0,
-       0,  -144,     0,  -144,     0,  -164,  -164,  -164,  -164,     0,
-       0,     0,     0,  -148,  -164,     0,     0,     0,  -143,  -148,
-    -143,   353,     0,     0,     0,     0,  -292,  -292,  -292,  -292,
-    -146,     0,     0,  -144,     0,  -292,     0,     0,     0,  -144,
-    -146,     0,     0,     0,     0,     0,     0,     0,  -164,  -164,
-    -164,     0,     0,  -145,  -146,  -145,     0,  -146,     0,     0,
-       0,  -146,     0,     0,     0,     0,  -146,     0,  -146,  -292,
-    -292,  -292,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -164,     0,     0,
-    -164,     0,     0,     0,     0,  -148,     0,  -148,  -146,     0,
-       0,     0,     0,     0,  -146,     0,  -164,     0,  -292,     0,
-       0,  -292,     0,     0,     0,  -144,     0,  -144,     0,     0,
-       0,     0,     0,  -164,     0,     0,   107,  -292,     0,     0,
-       0,     0,     0,  -142,  -142,  -142,  -142,  -164,     0,     0,
-       0,     0,   173,     0,  -292,     0,     0,     0,     0,     0,
-       0,     0,  -164,  -164,  -164,     0,     0,     0,  -292,  -142,
-    -142,  -142,  -142,     0,     0,     0,     0,     0,   173,     0,
-       0,     0,     0,  -292,  -292,  -292,  -142,  -142,  -142,     0,
-    -146,     0,  -146,     0,     0,     0,     0,     0,  -164,  -164,
-       0,     0,     0,     0,     0,     0,  -164,     0,     0,     0,
-       0,  -164,  -142,  -142,  -142,     0,     0,     0,     0,  -292,
-    -292,     0,     0,     0,     0,  -142,  -292,  -292,  -142,     0,
-       0,     0,  -292,     0,     0,     0,     0,  -142,  -142,  -142,
-    -142,     0,     0,     0,  -142,     0,   173,     0,     0,     0,
-       0,  -142,     0,     0,  -142,  -163,  -163,  -163,  -163,     0,
-       0,  -142,     0,     0,  -163,   214,   118,   119,   120,     0,
-    -142,     0,     0,     0,     0,  -142,     0,     0,     0,     0,
-    -142,  -142,  -142,     0,     0,     0,     0,  -142,     0,     0,
-    -142,  -142,  -142,     0,     0,     0,     0,     0,  -163,  -163,
-    -163,  -142,     0,     0,     0,     0,     0,     0,   215,   216,
-     217,     0,     0,     0,     0,     0,  -142,  -142,  -142,  -142,
-      75,     0,  -142,     0,     0,     0,  -142,  -142,     0,     0,
-       0,     0,     0,     0,  -142,   401,     0,  -163,  -142,  -142,
-    -163,     0,     0,     0,     0,     0,     0,   218,     0,     0,
-     122,     0,  -142,  -142,     0,  -142,  -163,     0,     0,     0,
-    -142,   567,     0,     0,     0,  -142,   123,     0,     0,  -142,
-       0,     0,     0,  -163,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   219,  -142,  -142,  -142,  -163,     0,     0,
-       0,   214,   118,   119,   120,     0,     0,   220,     0,     0,
-       0,     0,  -163,  -163,  -163,     0,     0,     0,     0,     0,
-       0,     0,   124,   125,   126,  -141,  -141,  -141,  -141,     0,
-    -142,  -142,     0,     0,     0,     0,     0,     0,  -142,     0,
-       0,     0,     0,  -142,   215,   216,   217,     0,  -163,  -163,
-       0,     0,     0,     0,     0,     0,  -163,     0,   221,   222,
-       0,  -163,     0,     0,     0,     0,   223,     0,  -141,  -141,
-    -141,   128,     0,     0,     0,     0,     0,     0,   214,   118,
-     119,   120,     0,   218,     0,     0,   122,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,   123,     0,     0,     0,     0,  -141,     0,     0,
-    -141,     0,     0,     0,     0,     0,     0,     0,     0,   219,
-       0,   301,   216,   217,     0,     0,  -141,     0,     0,     0,
-       0,     0,     0,   220,     0,     0,     0,     0,   214,   118,
-     119,   120,     0,  -141,     0,     0,     0,     0,   124,   125,
-     126,     0,     0,     0,     0,     0,     0,  -141,     0,     0,
-     218,     0,     0,   122,     0,     0,     0,     0,     0,     0,
-       0,     0,  -141,  -141,  -141,     0,     0,     0,     0,   123,
-       0,     0,   216,   217,   221,   222,     0,     0,     0,     0,
-       0,     0,   223,     0,     0,     0,   302,   128,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -141,  -141,
-     220,     0,     0,     0,     0,     0,  -141,     0,     0,     0,
-     218,  -141,     0,   122,     0,   124,   125,   126,     0,     0,
-       0,     0,     0,     0,     0,     0,  -354,     0,     0,   123,
-       0,     0,     0,     1,     0,     0,     0,     0,     0,     0,
-       0,     2,     0,     0,     0,     0,   302,     0,     3,     0,
-       0,   221,   222,     4,     0,     0,     0,     0,     0,   223,
-     220,     0,     0,     5,   128,     0,     6,     7,     0,     0,
-       0,     0,     0,     0,     0,   124,   125,   126,     8,     9,
-       0,     0,     0,     0,  -335,     0,     0,     0,    10,     0,
-       0,    11,     0,     0,     0,     1,     0,     0,     0,     0,
-       0,     0,     0,     2,     0,     0,     0,     0,     0,     0,
-       3,   221,   222,    12,     0,     4,     0,    13,     0,   223,
-       0,     0,     0,     0,   128,     5,     0,     0,     6,     7,
-       0,     0,     0,    14,     0,     0,     0,     0,     0,    15,
-       8,     9,     0,     0,     0,     0,  -335,     0,     0,     0,
-      10,     0,     0,    11,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,    12,     0,     0,     0,    13,
-       0,    16,    17,    18,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,    14,     0,     0,     0,     0,
-       0,    15,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -335,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,    16,    17,    18,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -335
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -313,     0,     0,  -224,  -224,  -224,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -313,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -313,     0,     0,  -313,     0,  -224,     0,  -224,  -313,  -224,
+    -224,  -313,     0,     0,  -313,     0,  -313,  -313,     0,     0,
+       0,  -313,     0,  -313,  -313,     0,  -313,  -313,  -313,     0,
+       0,     0,     0,     0,     0,     0,  -313,     0,     0,  -313,
+    -313,     0,     0,     0,  -313,  -313,     0,     0,     0,  -313,
+       0,     0,     0,  -314,     0,     0,  -314,     0,  -313,     0,
+       0,     0,  -314,     0,  -313,     0,  -313,     0,  -313,     0,
+    -313,     0,     0,     0,     0,     0,  -313,     0,  -313,  -314,
+       0,     0,  -148,     0,     0,     0,     0,     0,     0,     0,
+       0,  -148,     0,     0,     0,     0,     0,     0,  -314,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -314,     0,
+       0,  -314,     0,     0,  -313,  -313,  -314,     0,  -313,  -314,
+       0,     0,  -314,     0,  -314,  -314,     0,  -148,     0,  -314,
+       0,  -314,  -314,     0,  -314,  -314,  -314,  -148,     0,  -313,
+    -313,    80,  -313,  -313,  -314,     0,     0,  -314,  -314,     0,
+       0,  -148,  -314,  -314,  -148,     0,     0,  -314,  -148,  -322,
+       0,     0,     0,  -148,     0,   149,  -314,     0,  -322,     0,
+       0,     0,  -314,     0,  -314,     0,  -314,     0,  -314,     0,
+       0,     0,     0,     0,  -314,  -322,  -314,     0,     0,     0,
+       0,     0,     0,     0,     0,  -148,     0,     0,     0,     0,
+       0,  -148,     0,     0,  -322,     0,     0,     0,     0,     0,
+    -322,     0,     0,     0,  -322,     0,     0,     0,     0,     0,
+       0,     0,  -314,  -314,     0,  -322,  -314,     0,  -322,     0,
+    -322,  -322,     0,     0,     0,  -322,  -320,  -322,  -322,   359,
+    -322,  -322,  -322,     0,     0,  -320,     0,  -314,  -314,     0,
+    -314,  -314,     0,  -322,  -322,     0,     0,     0,  -322,  -322,
+       0,     0,  -320,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -322,     0,     0,     0,     0,  -148,  -322,  -148,
+       0,  -320,     0,     0,     0,     0,     0,     0,     0,     0,
+    -322,  -320,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -320,     0,     0,  -320,     0,  -320,  -320,     0,
+       0,     0,  -320,     0,  -320,  -320,     0,  -320,  -320,  -320,
+       0,  -322,  -322,  -322,  -357,     0,     0,     0,     0,     0,
+       0,  -320,     0,  -357,     0,  -320,  -320,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -320,
+    -357,     0,  -322,     0,  -322,  -320,  -322,  -322,     0,     0,
+       0,   546,     0,     0,     0,     0,     0,  -320,     0,  -357,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -357,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -357,     0,     0,  -357,     0,  -357,  -357,     0,     0,  -321,
+    -357,     0,  -357,  -357,     0,  -357,  -357,  -357,  -321,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -357,
+       0,     0,     0,  -357,  -357,  -321,     0,     0,     0,     0,
+       0,  -320,     0,  -320,  -320,     0,     0,  -357,     0,     0,
+     313,     0,     0,  -357,  -321,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -321,  -357,   314,     0,     0,     0,
+    -305,     0,     0,     0,     0,  -321,     0,     0,  -321,  -305,
+    -321,  -321,     0,     0,     0,  -321,     0,  -321,  -321,     0,
+    -321,  -321,  -321,     0,     0,     0,  -305,     0,     0,     0,
+       0,     0,     0,     0,  -321,     0,     0,     0,  -321,  -321,
+       0,     0,     0,     0,     0,  -305,     0,     0,     0,     0,
+       0,     0,  -321,     0,     0,  -305,     0,     0,  -321,  -357,
+       0,  -357,  -357,     0,     0,     0,  -305,     0,     0,  -305,
+    -321,  -305,  -305,     0,     0,  -307,  -305,     0,  -305,  -305,
+       0,  -305,  -305,  -305,  -307,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -305,     0,     0,     0,  -305,
+    -305,  -307,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -305,     0,     0,     0,     0,     0,  -305,
+    -307,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -307,  -305,     0,   622,  -321,     0,  -321,  -321,     0,     0,
+       0,  -307,     0,     0,  -307,     0,  -307,  -307,     0,     0,
+       0,  -307,     0,  -307,  -307,  -306,  -307,  -307,  -307,     0,
+       0,     0,     0,     0,  -306,     0,     0,     0,     0,     0,
+    -307,     0,     0,     0,  -307,  -307,     0,     0,     0,     0,
+       0,  -306,     0,     0,     0,     0,     0,     0,  -307,     0,
+       0,     0,     0,     0,  -307,  -305,     0,  -305,  -305,     0,
+    -306,     0,     0,     0,     0,     0,  -307,     0,     0,     0,
+    -306,     0,     0,     0,     0,     0,  -319,     0,     0,     0,
+       0,  -306,     0,     0,  -306,  -319,  -306,  -306,     0,     0,
+       0,  -306,     0,  -306,  -306,     0,  -306,  -306,  -306,     0,
+       0,     0,  -319,     0,     0,     0,     0,     0,     0,     0,
+    -306,     0,     0,     0,  -306,  -306,     0,     0,     0,     0,
+       0,  -319,     0,     0,     0,     0,     0,     0,  -306,     0,
+    -307,  -319,  -307,  -307,  -306,     0,   214,   118,   119,   120,
+       0,     0,  -319,     0,     0,  -319,  -306,  -319,  -319,     0,
+       0,  -311,  -319,     0,  -319,  -319,     0,  -319,  -319,  -319,
+    -311,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -319,     0,     0,     0,  -319,  -319,  -311,     0,   215,
+     216,   217,     0,     0,     0,     0,     0,     0,     0,  -319,
+       0,     0,     0,     0,     0,  -319,  -311,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -311,  -319,     0,     0,
+    -306,     0,  -306,  -306,     0,     0,     0,  -311,   218,     0,
+    -311,   122,  -311,  -311,     0,     0,     0,  -311,     0,  -311,
+    -311,  -317,  -311,  -311,  -311,     0,     0,   123,     0,     0,
+    -317,     0,     0,     0,     0,     0,  -311,     0,   273,     0,
+    -311,  -311,     0,     0,   219,     0,     0,  -317,     0,     0,
+       0,     0,     0,     0,  -311,     0,     0,     0,   220,     0,
+    -311,  -319,     0,  -319,  -319,     0,  -317,     0,     0,     0,
+       0,     0,  -311,   124,   125,   126,  -317,     0,     0,     0,
+       0,     0,  -308,     0,     0,     0,     0,  -317,     0,     0,
+    -317,  -308,  -317,  -317,     0,     0,     0,  -317,     0,  -317,
+    -317,     0,  -317,  -317,  -317,     0,     0,     0,  -308,   221,
+     222,     0,     0,     0,     0,     0,  -317,   223,     0,     0,
+    -317,  -317,   128,     0,     0,     0,     0,  -308,     0,     0,
+       0,     0,     0,     0,  -317,     0,  -311,  -308,  -311,  -311,
+    -317,     0,   214,   118,   119,   120,     0,     0,  -308,     0,
+       0,  -308,  -317,  -308,  -308,     0,     0,  -344,  -308,     0,
+    -308,  -308,     0,  -308,  -308,  -308,  -344,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -308,     0,     0,
+       0,  -308,  -308,  -344,     0,   215,   216,   217,     0,     0,
+       0,     0,     0,     0,     0,  -308,     0,     0,     0,     0,
+       0,  -308,  -344,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -344,  -308,     0,     0,  -317,     0,  -317,  -317,
+       0,     0,     0,  -344,   218,     0,  -344,   122,  -344,  -344,
+       0,     0,     0,  -344,     0,  -344,  -344,  -345,  -344,  -344,
+    -344,     0,     0,   123,     0,     0,  -345,     0,     0,     0,
+       0,   299,  -344,     0,     0,     0,  -344,  -344,     0,     0,
+     219,     0,     0,  -345,     0,     0,     0,     0,     0,     0,
+    -344,     0,     0,     0,   220,     0,  -344,  -308,     0,  -308,
+    -308,     0,  -345,     0,     0,     0,     0,     0,  -344,   124,
+     125,   126,  -345,     0,     0,     0,     0,     0,  -318,     0,
+       0,     0,     0,  -345,     0,     0,  -345,  -318,  -345,  -345,
+       0,     0,     0,  -345,     0,  -345,  -345,     0,  -345,  -345,
+    -345,     0,     0,     0,  -318,   221,   222,     0,     0,     0,
+       0,     0,  -345,   223,     0,     0,  -345,  -345,   128,     0,
+       0,     0,     0,  -318,     0,     0,     0,     0,     0,     0,
+    -345,     0,  -344,  -318,  -344,  -344,  -345,     0,     0,     0,
+       0,     0,     0,     0,  -318,     0,     0,  -318,  -345,  -318,
+    -318,     0,     0,  -346,  -318,     0,  -318,  -318,     0,  -318,
+    -318,  -318,  -346,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -318,     0,     0,     0,  -318,  -318,  -346,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -318,     0,     0,     0,     0,     0,  -318,  -346,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -346,  -318,
+       0,     0,  -345,     0,  -345,  -345,     0,     0,     0,  -346,
+       0,     0,  -346,     0,  -346,  -346,     0,     0,     0,  -346,
+       0,  -346,  -346,  -303,  -346,  -346,  -346,     0,     0,     0,
+       0,     0,  -303,     0,     0,     0,     0,     0,  -346,     0,
+       0,     0,  -346,  -346,     0,     0,     0,     0,     0,   537,
+       0,     0,     0,     0,     0,     0,  -346,     0,     0,     0,
+       0,     0,  -346,  -318,     0,  -318,  -318,     0,  -303,     0,
+       0,     0,     0,     0,  -346,     0,     0,     0,  -303,  -304,
+       0,     0,     0,     0,     0,     0,     0,     0,  -304,   538,
+       0,     0,  -303,     0,   539,  -303,     0,     0,     0,  -303,
+       0,   540,   541,     0,  -303,   537,  -303,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   542,     0,
+       0,  -171,  -356,   543,  -304,     0,     0,     0,     0,     0,
+    -171,     0,     0,     0,  -304,     0,  -303,     0,  -346,     0,
+    -346,  -346,  -303,     0,     0,   538,     0,     0,  -304,     0,
+     539,  -304,     0,     0,     0,  -304,     0,   540,   541,     0,
+    -304,     0,  -304,     0,     0,     0,  -171,     0,     0,     0,
+       0,     0,  -171,     0,   542,     0,  -171,  -323,  -356,   543,
+       0,     0,     0,     0,     0,     0,  -323,     0,     0,     0,
+    -171,     0,  -304,  -171,     0,     0,     0,  -171,  -304,     0,
+       0,     0,  -171,     0,  -171,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -171,     0,  -182,  -303,     0,
+    -303,  -309,  -323,     0,     0,     0,  -182,     0,  -323,     0,
+       0,     0,  -323,     0,  -171,     0,     0,     0,     0,     0,
+    -171,     0,     0,     0,     0,     0,  -323,     0,     0,  -323,
+       0,     0,     0,  -323,     0,     0,     0,     0,  -323,     0,
+    -323,     0,  -182,     0,     0,     0,     0,     0,  -182,     0,
+       0,  -323,  -182,     0,  -304,     0,  -304,  -310,     0,     0,
+       0,     0,  -172,  -171,  -171,  -171,  -182,     0,     0,  -182,
+    -323,  -172,     0,  -182,     0,     0,  -323,     0,  -182,     0,
+    -182,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -182,     0,     0,  -171,     0,  -171,     0,  -171,  -171,
+       0,     0,  -321,     0,     0,     0,     0,  -172,     0,     0,
+    -182,  -321,     0,  -172,     0,     0,  -182,  -172,     0,  -323,
+    -323,  -323,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -172,     0,     0,  -172,     0,     0,     0,  -172,     0,
+       0,     0,     0,  -172,     0,  -172,     0,  -321,     0,     0,
+    -323,     0,  -323,  -321,  -323,  -323,  -172,  -321,  -143,  -182,
+    -182,  -182,     0,     0,     0,     0,     0,  -143,     0,     0,
+       0,  -321,     0,  -145,  -321,  -172,     0,     0,  -321,     0,
+       0,  -172,  -145,  -321,     0,  -321,     0,     0,     0,     0,
+    -182,     0,  -182,     0,  -182,  -182,  -321,     0,     0,     0,
+       0,     0,     0,  -143,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -143,     0,  -321,     0,     0,  -145,     0,
+       0,  -321,     0,     0,  -172,  -172,  -172,  -143,  -145,  -144,
+    -143,     0,     0,     0,  -143,     0,     0,     0,  -144,  -143,
+       0,  -143,  -145,     0,     0,  -145,     0,     0,     0,  -145,
+       0,     0,  -143,     0,  -145,  -172,  -145,  -172,     0,  -172,
+    -172,     0,     0,  -146,  -321,  -321,  -321,   355,     0,     0,
+       0,  -143,  -146,     0,  -144,     0,     0,  -143,     0,     0,
+    -164,  -164,  -164,  -164,  -144,     0,  -145,     0,     0,  -164,
+       0,     0,  -145,     0,     0,  -321,     0,  -321,  -144,  -321,
+    -321,  -144,     0,     0,     0,  -144,     0,     0,  -146,     0,
+    -144,     0,  -144,     0,     0,     0,     0,     0,  -146,     0,
+       0,     0,     0,  -164,  -164,  -164,     0,     0,     0,     0,
+       0,     0,  -146,     0,     0,  -146,     0,     0,     0,  -146,
+       0,     0,  -144,     0,  -146,     0,  -146,     0,  -144,  -296,
+    -296,  -296,  -296,  -143,     0,  -143,   358,     0,  -296,     0,
+       0,     0,  -164,     0,     0,  -164,     0,     0,  -145,     0,
+    -145,  -142,  -142,  -142,  -142,     0,  -146,     0,     0,     0,
+     173,  -164,  -146,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -296,  -296,  -296,     0,     0,     0,  -164,     0,
+       0,   107,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -164,     0,  -142,  -142,  -142,     0,     0,     0,
+       0,     0,     0,     0,  -144,     0,  -144,  -164,  -164,  -164,
+       0,  -296,     0,     0,  -296,     0,     0,     0,     0,     0,
+    -142,  -142,  -142,  -142,     0,     0,     0,     0,     0,   173,
+    -296,     0,     0,  -142,     0,     0,  -142,     0,  -146,     0,
+    -146,     0,     0,  -164,  -164,     0,     0,  -296,     0,     0,
+       0,  -164,  -142,     0,     0,     0,  -164,     0,     0,     0,
+       0,  -296,     0,  -142,  -142,  -142,     0,     0,     0,  -142,
+       0,     0,     0,     0,     0,     0,  -296,  -296,  -296,     0,
+       0,     0,     0,  -142,     0,     0,     0,     0,  -142,  -142,
+    -142,  -142,     0,     0,     0,     0,     0,   173,  -142,  -142,
+    -142,     0,  -142,     0,     0,  -142,  -163,  -163,  -163,  -163,
+       0,     0,  -296,  -296,     0,  -163,     0,     0,     0,  -296,
+    -296,  -142,     0,     0,     0,  -296,     0,     0,     0,     0,
+       0,  -142,  -142,  -142,  -142,  -142,     0,     0,  -142,     0,
+       0,     0,  -142,   406,     0,     0,     0,  -142,     0,  -163,
+    -163,  -163,  -142,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -142,  -142,  -142,
+    -142,     0,     0,  -142,   214,   118,   119,   120,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -163,  -142,
+       0,  -163,     0,     0,     0,     0,     0,     0,   214,   118,
+     119,   120,     0,  -142,  -142,     0,  -142,  -163,     0,     0,
+       0,  -142,   573,     0,     0,     0,  -142,   215,   216,   217,
+    -142,     0,     0,     0,  -163,     0,     0,     0,     0,    75,
+       0,     0,     0,     0,     0,  -142,  -142,  -142,  -163,     0,
+       0,   215,   216,   217,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -163,  -163,  -163,   218,     0,     0,   122,
+       0,     0,     0,     0,     0,     0,  -141,  -141,  -141,  -141,
+       0,  -142,  -142,     0,     0,   123,     0,     0,     0,  -142,
+     218,     0,     0,   122,  -142,     0,     0,     0,     0,  -163,
+    -163,     0,   219,     0,     0,     0,     0,  -163,     0,   123,
+       0,     0,  -163,     0,     0,     0,   220,     0,     0,  -141,
+    -141,  -141,     0,     0,     0,     0,   219,     0,     0,     0,
+       0,   124,   125,   126,   214,   118,   119,   120,     0,     0,
+     220,     0,     0,     0,   214,   118,   119,   120,     0,     0,
+       0,     0,     0,     0,     0,   124,   125,   126,  -141,     0,
+       0,  -141,   214,   118,   119,   120,     0,   221,   222,     0,
+       0,     0,     0,     0,     0,   223,     0,  -141,   216,   217,
+     128,     0,     0,     0,     0,     0,     0,   302,   216,   217,
+       0,   221,   222,     0,  -141,     0,     0,     0,     0,   223,
+       0,     0,     0,     0,   128,     0,   216,   217,  -141,     0,
+       0,     0,     0,     0,     0,     0,   218,     0,     0,   122,
+       0,     0,     0,  -141,  -141,  -141,   218,     0,     0,   122,
+       0,     0,     0,     0,     0,   123,     0,     0,     0,     0,
+       0,     0,     0,     0,   218,   123,     0,   122,     0,     0,
+       0,     0,   309,     0,     0,     0,     0,     0,     0,  -141,
+    -141,     0,   303,   123,     0,     0,   220,  -141,     0,     0,
+       0,     0,  -141,     0,     0,     0,   220,     0,     0,     0,
+     303,   124,   125,   126,     0,     0,     0,     0,     0,     0,
+       0,   124,   125,   126,   220,     0,     0,  -358,     0,     0,
+       0,     0,     0,     0,     1,     0,     0,     0,     0,   124,
+     125,   126,     2,     0,     0,     0,     0,   221,   222,     3,
+       0,     0,     0,     0,     4,   223,     0,   221,   222,     0,
+     128,     0,     0,     0,     5,   223,     1,     6,     7,     0,
+     128,     0,     0,     0,     2,   221,   222,     0,     0,     8,
+       9,     3,     0,   223,     0,  -339,     4,     0,   128,    10,
+       0,     0,    11,     0,     0,     0,     5,     0,     0,     6,
+       7,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     8,     9,     0,    12,     0,     0,  -339,    13,     0,
+       0,    10,     0,     0,    11,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,    14,     0,     0,     0,     0,     0,
+      15,     0,     0,     0,     0,     0,    12,     0,     0,     0,
+      13,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,    14,     0,     0,     0,
+       0,     0,    15,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,    16,    17,    18,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,    16,    17,    18,     0,     0,     0,
+       0,  -339,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -339
 };
 
 static const yytype_int16 yycheck[] =
 {
-       2,   107,   149,     5,   175,    54,   148,   304,    10,   211,
-      12,   182,    57,    58,    59,   293,   342,   115,    97,    98,
-     374,    19,   116,    81,     3,    78,     3,   112,   125,   116,
-     115,   219,   373,   221,   181,     0,   183,   184,   132,   539,
-       0,   395,    27,   335,     0,     3,    48,     0,    50,   495,
-       0,     0,     3,     0,   203,   347,     0,    78,    60,     5,
-       6,     3,    60,    94,     0,     3,   109,    94,     3,    70,
-       0,   218,   151,   116,    94,   104,   223,     0,    99,    80,
-     116,     0,     0,    85,    86,    98,     0,     3,   588,   132,
-     292,    93,   121,     0,     0,     0,   132,   194,   100,   101,
-     247,   195,    55,     0,   153,   402,     0,     0,   195,     0,
-     111,     0,     9,   133,   302,     0,     9,     0,    83,    72,
-       0,   475,   310,    76,   312,   178,    80,   424,   316,   317,
-     318,   319,   320,   321,   322,   323,   324,   325,   326,   327,
-     328,   329,   330,   201,     0,   499,   500,   296,    45,   207,
-     297,   298,    45,   113,    51,   601,     0,     0,    55,   195,
-     113,   308,   309,   113,   113,    83,     9,   508,   266,   119,
-       3,     0,     0,   131,   223,    72,    83,   113,    83,    76,
-       6,   266,    58,    26,    81,     0,     0,     6,    81,     0,
-     113,    17,   127,   116,     0,   113,   119,     3,     0,   113,
-      83,   527,    45,     0,   150,   119,     3,   209,    51,   132,
-     187,     0,    55,   360,     0,   194,   113,     3,   365,   366,
-     113,   518,   119,    66,   113,   331,    69,   505,    71,    72,
-     113,     3,   197,    76,   422,    78,    79,   197,    81,    82,
-      83,   197,   195,   194,   197,   195,   295,   197,   197,    55,
-     197,    94,    95,   197,   456,    83,    99,   100,    55,   195,
-       0,   197,   616,   410,   411,   154,    72,   197,    58,    55,
-     113,   568,   195,    63,   197,    72,   119,   335,   197,   197,
-     198,   195,   636,   197,    90,   113,    72,     3,   131,   347,
-     197,   197,   197,   338,   591,    58,   375,     0,   195,   113,
-     197,   198,   195,   197,   197,   119,   197,   113,   197,     3,
-     116,   117,   197,   119,   197,   198,   113,   197,   194,   162,
-     163,   164,   119,   620,   113,     0,   132,   113,   516,   643,
-     332,     0,     0,   119,   133,   155,   169,   170,   171,   165,
-     654,   197,   168,     0,   158,   159,   165,    17,    18,   168,
-     193,   116,   195,   197,   197,   198,   162,   163,   164,   131,
-     507,    58,   509,   510,   413,   162,   163,   164,   197,   197,
-     198,     0,   116,   113,     3,   424,   162,   163,   164,   119,
-       9,   195,   197,   197,   198,     0,   197,   195,    17,   195,
-     198,   197,   198,     0,   116,   197,    94,    26,   195,    78,
-     197,   198,   116,    58,   194,   194,   166,   167,   197,   195,
-     113,   197,   198,     0,    83,    83,    45,   559,   158,   159,
-      99,   195,    51,     0,   198,    54,    55,   574,     0,    98,
-     195,   194,   603,   127,    58,   198,   256,    66,     0,     3,
-      69,    58,    71,    72,   113,   113,    63,    76,   116,    78,
-      79,   195,    81,    82,    83,   195,   113,   197,   198,   116,
-     115,    90,   119,    92,   132,    94,    95,    58,    55,   518,
-      99,   100,   101,   195,     3,   132,    83,   624,    55,   626,
-     109,   195,     3,   112,   113,    72,   123,   116,   117,   118,
-     119,   493,   121,    58,   197,    72,   125,   194,   113,   128,
-     129,   198,   131,   132,   119,   123,   113,   136,   137,   138,
-     139,   140,   141,   142,   143,   144,   145,   146,   147,   148,
-     149,    83,   113,     0,     0,   194,   113,   125,   197,   197,
-     198,   351,   119,   162,   163,   164,   113,     0,   195,   194,
-     197,   113,   119,   158,   159,     0,   175,   176,   177,   178,
-     179,   113,    58,   182,   183,    97,   185,   186,   187,   188,
-     189,   190,     0,   192,   193,     3,   195,     4,   197,   198,
-     194,     9,     0,   101,   198,   162,   163,   164,    55,    17,
-     195,     3,   197,   198,     0,   162,   163,   164,    26,   121,
-     197,    93,    55,     0,     0,    72,     0,     0,   127,    76,
-     128,   193,   131,   194,     0,    70,   198,    45,   195,    72,
-     197,   198,    62,    51,     0,    80,    54,    55,   195,   265,
-     197,   198,   194,     0,   270,   197,   566,   567,    66,   194,
-      78,    69,   194,    71,    72,   197,   113,   113,    76,     3,
-      78,    79,   119,    81,    82,    83,   111,    46,    55,    55,
-     113,    99,    90,     4,    92,   195,    94,    95,    94,    55,
-       0,    99,   100,   101,   195,    72,    72,    58,     3,    55,
-      76,   109,   166,   167,   112,   113,    72,    58,   116,   117,
-     118,   119,   622,   121,   134,   113,    72,   125,   194,   125,
-     128,   129,   198,   131,   132,   163,   164,   113,   136,   137,
-     138,   139,   140,   141,   142,   143,   113,   113,     0,   113,
-     113,   161,   119,   119,   194,     0,   119,   113,   195,   195,
-     197,   197,   172,   119,   162,   163,   164,   113,    58,    46,
-      47,     6,   195,   119,   197,   194,   113,   175,   176,   177,
-     178,   179,   119,    58,   182,   183,   126,   185,   186,   187,
-     188,   189,   190,     0,   192,   193,     3,   195,   194,   197,
-     198,     6,     9,    55,   194,    46,   162,   163,   164,   197,
-      17,    93,    17,   113,     4,     0,   162,   163,   164,    26,
-      72,   197,     0,     0,    76,   115,     0,     0,   195,   195,
-     197,   197,   195,   197,   197,     0,     3,   195,    45,   195,
-     115,   197,   198,   194,    51,     0,     4,    54,    55,   195,
-     131,   197,   198,   194,     0,   131,   109,    24,   195,    66,
-     197,   113,    69,   116,    71,    72,     6,   119,   113,    76,
-      55,    78,    79,    12,    81,    82,    83,    17,     3,   132,
-       3,     0,    49,    90,   175,    92,     3,    94,    95,   125,
-      55,     0,    99,   100,   101,   195,    91,   197,    37,   162,
-     163,   164,   109,     0,   194,   112,   113,    72,    58,   116,
-     117,   118,   119,   195,   121,    54,   198,   116,   125,   194,
-       3,   128,   129,   125,   131,   132,   125,   194,   113,   136,
-     137,   116,   195,   132,   119,   113,   113,   104,   194,   113,
-     113,     0,     0,   195,   194,   197,     0,   132,   113,     0,
-     195,    98,   197,     0,   119,   162,   163,   164,   113,   195,
-     165,   192,   198,   168,   103,   115,     0,   113,   175,   176,
-     177,   178,   179,   119,   195,   182,   183,   198,   185,   186,
-     187,   188,   189,   190,   194,   192,   193,   194,   195,   196,
-     197,   198,     0,    39,   113,     3,    55,   162,   163,   164,
-     119,     9,     0,   194,   113,     0,     0,   125,    55,    17,
-     195,   130,   197,    72,     0,    92,   113,    76,    26,   197,
-     197,     0,     0,   197,   197,   165,   125,    93,   168,     0,
-     195,     9,   197,   198,   116,   112,   118,    45,     0,   158,
-     159,   118,   197,    51,   194,   194,    54,    55,   172,   195,
-     132,   197,   194,     0,   113,   113,   172,    58,    66,   113,
-     119,    69,   113,    71,    72,   194,   113,    45,    76,    77,
-      78,    79,   119,    81,    82,    83,   195,    55,   197,   113,
-     195,   194,    90,     0,    92,   119,    94,    95,   197,   125,
-       3,    99,   100,   101,    72,     4,   195,     4,    76,   198,
-     197,   109,   112,    81,   112,   113,   116,     4,   116,   117,
-     118,   119,     0,   121,     3,   113,     0,   125,   113,   113,
-     128,   129,   132,   131,   132,   119,   161,   113,   136,   137,
-     172,     0,     0,     0,   113,   113,   195,   116,   197,   197,
-     119,   119,   113,   197,     0,   194,   197,     0,   195,   194,
-     197,   113,     3,   132,   162,   163,   164,   119,   195,   195,
-      94,   195,   198,   197,   194,   194,   113,   175,   176,   177,
-     178,   179,   194,    24,   182,   183,   101,   185,   186,   187,
-     188,   189,   190,     0,   192,   193,     3,   195,    92,   197,
-     198,   195,     9,     0,   198,     6,   113,     0,    49,   197,
-      17,   195,   197,   197,     0,     0,    17,   195,   112,    26,
-     198,   197,     0,     0,   118,   198,   195,   195,   197,   197,
-       0,     0,     9,     0,     3,   113,   197,   194,    45,   113,
-       0,   119,   104,   195,    51,   197,   195,    54,    55,   198,
-       0,   193,   130,    62,   113,   113,   113,     3,     3,    66,
-     197,   195,    69,   104,    71,    72,     6,   113,    45,    76,
-     113,    78,    79,     6,    81,    82,    83,   160,    55,     6,
-     158,   159,   116,    90,   118,    92,    55,    94,    95,     6,
-     197,   104,    99,   100,   101,    72,   194,   195,   132,    76,
-     198,     6,   109,    72,    81,   112,   113,   172,   194,   116,
-     117,   118,   119,   195,   121,   195,   113,   195,   125,   197,
-     113,   128,   129,   197,   131,   132,   119,   113,   113,   136,
-     137,     4,   195,     0,   119,   113,   113,   130,   197,   197,
-     197,    99,   119,   113,   113,   130,   113,    99,    99,     3,
-     119,   197,    99,   113,   197,   162,   163,   164,   195,   195,
-      99,   198,   198,   113,   165,   158,   159,   168,   175,   176,
-     177,   178,   179,   158,   159,   182,   183,    92,   185,   186,
-     187,   188,   189,   190,   126,   192,   193,   194,   195,     0,
-     197,   198,     3,   162,   163,   164,   195,   112,     9,   198,
-     197,   116,   195,   118,   197,   195,    17,   195,    76,    99,
-     195,   197,   197,   195,   195,    26,   198,   132,   195,   197,
-     197,   195,   195,   195,   198,    76,   195,   197,   197,   198,
-     197,   195,   195,    92,    45,   198,   195,   197,   195,   198,
-      51,   198,   195,    54,    55,   198,   113,   197,     4,     5,
-       6,    76,   119,   112,    99,    66,    99,   116,    69,   118,
-      71,    72,     6,   130,   173,    76,   195,    78,    79,   198,
-      81,    82,    83,   132,   195,   195,   126,   198,   198,    90,
-     105,    92,   195,    94,    95,   198,   116,   195,    99,   100,
-     101,   158,   159,   194,   162,   163,   164,   195,   109,   195,
-     198,   112,   113,   195,   195,   116,   117,   118,   119,    70,
-     121,   162,   163,   164,   125,    24,   195,   128,   129,   198,
-     131,   132,   349,   339,   453,   136,   137,   195,   195,   399,
-     197,   195,    88,   195,   198,   495,   198,   162,   163,   164,
-     195,   248,   104,   198,   195,   360,   195,   198,   104,   198,
-     207,   162,   163,   164,   195,   195,   299,   198,   198,   121,
-     195,   353,   201,   198,   175,   176,   177,   178,   179,   584,
-     195,   182,   183,   104,   185,   186,   187,   188,   189,   190,
-       0,   192,   193,     3,   195,   195,   197,   198,   198,     9,
-     121,   127,   127,   583,   150,   151,   152,    17,   264,   364,
-       4,     5,     6,     4,     5,     6,    26,   169,   170,   548,
-       0,   173,   138,   139,   140,   141,   142,   143,   195,     9,
-     195,   198,   104,   198,   195,    45,   195,   198,   276,   198,
-     186,    51,   194,   195,    54,    55,   198,   195,   169,   170,
-     198,    -1,   173,   199,    48,   195,    66,    48,   198,    69,
-     195,    71,    72,   198,   195,    45,    76,   198,    78,    79,
-      -1,    81,    82,    83,   195,    55,   195,   198,   195,   198,
-      90,   198,    92,   195,    94,    95,   198,    -1,    58,    99,
-     100,   101,    72,    63,    88,   195,    76,    88,   198,   109,
-      -1,    81,   112,   113,    -1,    -1,   116,   117,   118,   119,
-     104,   121,    -1,   104,   195,   125,    -1,   198,   128,   129,
-      -1,   131,   132,    -1,    -1,    -1,   136,   137,   104,    -1,
-      -1,    -1,    -1,   113,   104,    -1,    -1,    -1,    -1,   119,
-      -1,    -1,    -1,    -1,    -1,   121,    -1,   104,    -1,    -1,
-      -1,   121,   162,   163,   164,   125,   150,   151,   152,   150,
-     151,   152,    -1,    -1,   121,   175,   176,   177,   178,   179,
-      -1,    -1,   182,   183,   104,   185,   186,   187,   188,   189,
-     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
-       9,   121,   186,   169,   170,   186,    -1,   173,    17,   169,
-     170,   195,    -1,   173,    -1,   199,    -1,    26,   199,    -1,
-      -1,     0,   169,   170,    -1,   195,   173,   197,   194,   195,
-       9,    -1,   198,    -1,    -1,   195,    45,    -1,   198,    -1,
-      -1,    -1,    51,    -1,    -1,    54,    55,   194,   195,   169,
-     170,   198,    -1,   173,    -1,    -1,    -1,    66,    -1,    -1,
-      69,    -1,    71,    72,    -1,    -1,    45,    76,    -1,    78,
-      79,    -1,    81,    82,    83,   195,    55,    -1,   198,    -1,
-      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
-      99,   100,   101,    72,    -1,    -1,    -1,    76,    -1,    -1,
-     109,    -1,    81,   112,   113,    -1,    -1,   116,   117,   118,
-     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
-     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
-      -1,   104,    -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,
-     119,    -1,    -1,    -1,   104,    -1,    -1,    -1,   121,    -1,
-      26,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
-      -1,   121,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
-     179,    -1,    -1,   182,   183,   104,   185,   186,   187,   188,
-     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
-      66,     9,   121,    -1,    -1,    71,   169,   170,    -1,    17,
-     173,    -1,    78,    79,    -1,    -1,    82,    -1,    26,   169,
-     170,    -1,    -1,   173,    -1,    -1,   195,    -1,   197,    95,
-      -1,    -1,   195,    99,   100,   198,    -1,    45,    -1,    -1,
-      -1,    -1,    -1,    51,    -1,   195,    54,    55,   198,    -1,
-     169,   170,    -1,    -1,   173,    -1,    -1,    -1,    66,    -1,
-      -1,    69,    -1,    71,    72,   131,    -1,    -1,    76,    -1,
-      78,    79,    -1,    81,    82,    83,   195,    -1,    -1,   198,
-      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
-      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
-     118,   119,    -1,   121,    -1,    -1,    11,   125,    -1,    -1,
-     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
-      25,    -1,   104,    -1,    29,    30,    31,    32,    33,    -1,
-      35,   104,    -1,    -1,    -1,    -1,    -1,    -1,    43,   121,
-      -1,    -1,    -1,    -1,   162,   163,   164,    -1,   121,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
-     178,   179,    -1,    68,   182,   183,    -1,   185,   186,   187,
-     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
-     198,    86,     9,    88,    89,    -1,    -1,   169,   170,    -1,
-      17,   173,    -1,   104,    -1,    -1,   169,   170,   103,    26,
-     173,    -1,    -1,   108,    -1,   110,    -1,    -1,    -1,    -1,
-     121,    -1,   104,   195,    -1,   120,   198,    -1,    45,    -1,
-      -1,    -1,   195,    -1,    51,   198,    -1,    54,    55,   121,
-     104,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
-      -1,    -1,    69,    -1,    71,    72,    -1,   121,   153,    76,
-      -1,    78,    79,    -1,    81,    82,    83,    -1,   169,   170,
-      -1,    -1,   173,    90,    54,    92,    -1,    94,    95,    -1,
-      -1,    -1,    99,   100,   101,    -1,    -1,   169,   170,    -1,
-      -1,   173,   109,    -1,   195,   112,   113,   198,    -1,   116,
-     117,   118,   119,    -1,   121,   169,   170,    -1,   125,   173,
-      -1,   128,   129,   195,   131,   132,   198,    -1,    -1,   136,
-     137,   101,    -1,   104,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   195,    -1,    -1,   198,    -1,   116,    -1,    -1,    -1,
-     121,   121,    -1,    -1,    -1,   162,   163,   164,    -1,   129,
-      -1,    -1,    -1,    -1,    -1,    -1,   136,   137,   175,   176,
+       2,   149,    54,     5,   175,   148,    97,    98,    10,   308,
+      12,   182,   211,    57,    58,    59,   294,   107,   501,   155,
+      93,   379,     0,     3,     0,    19,    12,   115,    58,     0,
+     219,     3,   221,   181,    81,   183,   184,   116,     3,     0,
+       0,   545,   400,     3,     0,    58,    48,   340,    50,    78,
+      63,    37,    58,   132,     0,    58,     0,     0,    60,   352,
+     151,     0,     3,    58,     0,   101,    60,    94,    54,   203,
+     218,     3,    27,     0,     0,   223,    92,   112,   195,     0,
+     115,   198,     0,    85,    86,     0,   347,   104,     0,     0,
+     594,    93,   128,     0,   293,    55,   112,     3,   100,   101,
+     248,   153,   118,     0,   121,    83,   133,    83,   407,     0,
+     113,     3,    72,    94,   303,     3,   195,   103,     0,    55,
+     309,   257,   195,   481,   607,   198,   315,     0,   317,     0,
+      90,   430,   321,   322,   323,   324,   325,   326,   327,   328,
+     329,   330,   331,   332,   333,   334,   335,   505,   506,   178,
+     298,   299,   113,   113,   201,   127,   116,   117,   119,   119,
+     207,     0,    83,   297,   194,   313,   314,   113,    83,   113,
+     113,   223,   132,   119,     0,     0,    83,   113,     3,   267,
+     116,   194,     0,   119,   130,     0,    83,   113,   194,     0,
+       0,   194,   113,     3,    58,   116,   132,     0,   113,   194,
+       3,     0,   162,   163,   164,     0,     9,   209,     0,     0,
+      83,   132,   158,   159,   194,     0,   113,   365,     0,   197,
+     356,   197,   370,   371,     9,   524,   197,     0,   154,   194,
+      55,   113,   267,   511,   195,   195,   197,   197,   198,   428,
+     113,   197,    45,   131,   296,    55,   336,    72,    51,   195,
+     194,   197,    55,   197,   197,   187,    55,    83,   197,   195,
+      45,   197,    72,   462,   622,    83,    69,   415,   416,    72,
+     197,   197,   533,    76,   113,   574,   197,   198,    81,   197,
+      83,     0,   197,   198,   642,   197,   197,   113,   113,   380,
+     197,    94,     0,   340,   119,   113,    81,     0,   597,   343,
+     197,   198,   113,   113,     0,   352,   197,     0,   119,   119,
+     113,     0,   194,   116,   113,   197,   119,     3,   113,   130,
+     119,   113,   125,     3,   197,   198,   197,   626,   113,   132,
+     194,   113,     3,   522,   198,   337,     0,   162,   163,   164,
+     113,    58,    94,     3,   378,     0,     0,   158,   159,     0,
+       0,   116,   162,   163,   164,   116,   195,   116,   197,   162,
+     163,   164,     5,     6,    24,   513,   418,   515,   516,   125,
+     195,   197,   197,   198,     0,   116,   194,     3,   430,   197,
+       0,    80,   197,     9,   195,   195,   197,   197,   198,    49,
+     193,    17,   195,   649,   197,   198,   195,    98,   197,     3,
+      26,    55,   197,   195,   660,   197,   197,   125,   166,   167,
+     195,     0,   197,   195,     6,   197,     0,   113,    72,    45,
+     113,     0,   565,     0,   197,    51,     0,     3,    54,    55,
+     195,    94,   580,    83,   195,     0,   195,     3,   609,   195,
+      66,   127,   198,    69,   104,    71,    72,   127,    98,   113,
+      76,   131,    78,    79,   195,    81,    82,    83,   113,   113,
+     131,     3,   113,   113,    90,   119,    92,   123,    94,    95,
+       0,    55,   524,    99,   100,   101,   194,   194,   197,     0,
+     514,    55,   630,   109,   632,   123,   112,   113,    72,   197,
+     116,   117,   118,   119,   197,   121,   133,   499,    72,   125,
+     125,   197,   128,   129,   197,   131,   132,   150,   197,     0,
+     136,   137,   138,   139,   140,   141,   142,   143,   144,   145,
+     146,   147,   148,   149,   113,     0,     0,     0,    97,   113,
+     119,   195,     3,   197,   113,   119,   162,   163,   164,   113,
+       0,   195,   197,   197,   194,   119,   197,   197,   113,   175,
+     176,   177,   178,   179,   119,    58,   182,   183,   219,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      94,   197,   198,   165,     9,    58,   168,   197,   162,   163,
+     164,    55,    17,   113,   219,   121,     0,   219,   162,   163,
+     164,    26,   113,   158,   159,    55,   116,     0,    72,     0,
+       0,   125,    76,   169,   170,   171,   195,     0,   197,   116,
+      45,   195,    72,   197,   198,    62,    51,     0,   197,    54,
+      55,   195,    58,   197,   198,   132,     0,    63,    58,    78,
+     195,    66,   197,   198,    69,    78,    71,    72,   113,   113,
+     113,    76,   303,    78,    79,   119,    81,    82,    83,   193,
+      99,    70,    55,   113,   198,    90,    99,    92,     4,    94,
+      95,    80,    55,     0,    99,   100,   101,   197,   303,    72,
+     194,   303,    55,    76,   109,   195,   197,   112,   113,    72,
+     266,   116,   117,   118,   119,   271,   121,   134,   195,    72,
+     125,   194,   111,   128,   129,   198,   131,   132,    93,   113,
+       0,   136,   137,   138,   139,   140,   141,   142,   143,     3,
+     113,   194,   113,   113,   161,   198,   119,     0,    58,   119,
+     113,   195,   197,   197,   197,   172,   119,   162,   163,   164,
+     113,    58,     0,    46,    58,   195,   119,   197,   195,   113,
+     175,   176,   177,   178,   179,   119,    58,   182,   183,   195,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,     4,   197,   198,   194,     9,    17,    18,   198,   162,
+     163,   164,    55,    17,     3,   115,   113,     0,     0,   162,
+     163,   164,    26,   197,   158,   159,     0,   194,   115,    72,
+      70,   115,   195,    76,   197,   195,   197,   197,     0,    78,
+      80,    45,   195,   115,   197,   198,   125,    51,     0,   194,
+      54,    55,   195,   113,   197,   198,     6,     0,   126,   119,
+      99,   195,    66,   197,   198,    69,   195,    71,    72,   198,
+     113,   111,    76,   125,    78,    79,   119,    81,    82,    83,
+     572,   573,     6,   166,   167,   113,    90,     0,    92,     0,
+      94,    95,   194,    17,   194,    99,   100,   101,   158,   159,
+     197,   162,   163,   164,   116,   109,   118,   194,   112,   113,
+     194,     4,   116,   117,   118,   119,   195,   121,     4,   198,
+     132,   125,   194,    46,   128,   129,   195,   131,   132,     6,
+     113,   113,   136,   137,   195,   195,   628,   197,   198,   113,
+      17,   163,   164,   195,     0,     0,   198,   195,   175,     0,
+     198,   113,   195,   131,   197,     0,     0,   119,   162,   163,
+     164,   113,    46,    47,   116,     9,     0,   119,   130,   197,
+     113,   175,   176,   177,   178,   179,   119,   131,   182,   183,
+     132,   185,   186,   187,   188,   189,   190,     3,   192,   193,
+     194,   195,   196,   197,   198,     0,   158,   159,     3,    55,
+     113,    45,   113,   116,     9,     0,   119,    51,     0,     0,
+      55,    55,    17,     3,   197,   197,    72,     0,   112,   132,
+      76,    26,   116,   197,     0,     0,   195,    72,    72,   198,
+      91,    76,    76,   195,     9,   197,     0,    81,   132,    92,
+      45,   165,     0,   195,   168,   197,    51,     0,     3,    54,
+      55,     0,   195,     3,   197,   125,     0,   113,   113,   112,
+     194,    66,   113,   119,    69,   118,    71,    72,   113,   113,
+      45,    76,    77,    78,    79,   119,    81,    82,    83,   113,
+      55,    98,   195,   116,   197,    90,   197,    92,   165,    94,
+      95,   168,   125,   194,    99,   100,   101,    72,   194,   132,
+     195,    76,    55,   198,   109,   192,    81,   112,   113,   194,
+     109,   116,   117,   118,   119,     0,   121,   116,   113,    72,
+     125,   113,   113,   128,   129,    39,   131,   132,   119,   194,
+     113,   136,   137,   132,     0,   194,     0,   113,   113,   195,
+     116,   197,   197,   119,   119,   195,   197,     0,   198,   113,
+     195,   195,   197,   197,   198,   113,   132,   162,   163,   164,
+     113,    93,   125,   197,   113,   195,   119,   194,   198,   113,
+     175,   176,   177,   178,   179,   119,   195,   182,   183,   198,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,   172,   197,   198,   109,     9,     0,     0,   172,    58,
+       0,   116,   197,    17,   195,   197,   197,     0,     0,   162,
+     163,   164,    26,   195,   197,     0,     0,   132,     4,   195,
+     195,   197,   197,   195,     0,     9,   198,     3,   113,   195,
+      92,    45,   198,   197,   194,   195,     3,    51,   198,   197,
+      54,    55,   195,   195,   197,   198,   198,   113,   197,   113,
+     112,   195,    66,   197,   116,    69,   118,    71,    72,   194,
+     113,    45,    76,   194,    78,    79,   119,    81,    82,    83,
+     132,    55,     6,     6,     4,   116,    90,   118,    92,    55,
+      94,    95,     4,    17,    17,    99,   100,   101,    72,     3,
+     195,   132,    76,   198,   172,   109,    72,    81,   112,   113,
+     161,   194,   116,   117,   118,   119,   194,   121,   194,   113,
+     113,   125,   197,   113,   128,   129,   119,   131,   132,   119,
+     113,   113,   136,   137,   194,   194,   119,   130,   113,   113,
+     130,   197,   195,   197,    94,   119,   101,   113,    76,     4,
+       5,     6,   195,   119,   197,   194,   104,   193,   162,   163,
+     164,   195,     3,   198,   198,   158,   159,   195,   158,   159,
+     198,   175,   176,   177,   178,   179,     3,   105,   182,   183,
+      62,   185,   186,   187,   188,   189,   190,   160,   192,   193,
+     194,   195,     0,   197,   198,     3,   162,   163,   164,   195,
+      92,     9,   195,   197,   197,   195,     6,   197,   195,    17,
+     195,   198,   195,   198,   197,   197,   195,     6,    26,   198,
+     112,   195,   197,   197,   116,     6,   118,   195,    76,   195,
+     198,   197,   198,    88,   162,   163,   164,    45,     6,    76,
+     132,   165,   165,    51,   168,   168,    54,    55,     6,   104,
+       4,     5,     6,   104,   195,   194,     3,   198,    66,   195,
+     195,    69,   198,    71,    72,   172,   195,   195,    76,   198,
+      78,    79,     4,    81,    82,    83,   195,    24,   195,   198,
+     195,   198,    90,   198,    92,   195,    94,    95,   198,   195,
+      26,    99,   100,   101,    48,   150,   151,   152,   195,     3,
+     195,   109,    49,   198,   112,   113,    99,    99,   116,   117,
+     118,   119,    99,   121,   162,   163,   164,   125,   195,   195,
+     128,   129,   198,   131,   132,   162,   163,   164,   136,   137,
+      66,   186,    99,    99,    88,    71,   138,   139,   140,   141,
+     142,   143,    78,    79,   199,   104,    82,   195,   195,   195,
+     104,   198,   198,   126,   162,   163,   164,   104,   195,    95,
+     195,   198,   121,    99,   100,   195,   195,   175,   176,   177,
+     178,   179,   195,   195,   182,   183,   198,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,   195,   197,
+     198,   198,     9,    99,   195,   131,   150,   151,   152,   195,
+      17,    99,   198,     4,     5,     6,    99,     6,   126,    26,
+     169,   170,   195,     0,   173,   198,   195,   195,   195,   198,
+     198,   198,     9,   195,   195,   173,   198,   198,    45,   116,
+     195,   195,   186,   198,    51,   194,   195,    54,    55,   198,
+     104,   195,   195,   195,   194,   199,   198,    48,    70,    66,
+     195,   195,    69,   198,    71,    72,   195,   121,    45,    76,
+     195,    78,    79,   198,    81,    82,    83,    24,    55,   354,
+     344,   459,   404,    90,   501,    92,   365,    94,    95,   249,
+     207,    58,    99,   100,   101,    72,    63,    88,   201,    76,
+     358,   300,   109,   127,    81,   112,   113,   127,   590,   116,
+     117,   118,   119,   104,   121,   169,   170,   589,   125,   173,
+     265,   128,   129,   369,   131,   132,   277,   554,   104,   136,
+     137,   104,    -1,    -1,    -1,    -1,   113,   104,    -1,    -1,
+     194,   195,   119,    -1,   198,    -1,   104,    -1,   121,    -1,
+      -1,    -1,    -1,    -1,   121,   162,   163,   164,   125,   150,
+     151,   152,    -1,   121,    -1,    -1,    -1,    -1,   175,   176,
      177,   178,   179,    -1,    -1,   182,   183,   104,   185,   186,
      187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
-     197,   198,    -1,     9,   121,    -1,    -1,    -1,   169,   170,
-      -1,    17,   173,    -1,   104,   175,   176,   177,   178,   179,
-      26,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
-     190,   121,   192,   104,   195,    -1,    -1,   198,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
-     121,   104,   169,   170,    -1,    -1,   173,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,   121,    -1,
-      76,    -1,    78,    79,   104,    81,    82,    83,   195,   169,
-     170,   198,    -1,   173,    90,    -1,    92,    -1,    94,    95,
-      -1,   121,    -1,    99,   100,   101,    -1,    -1,   169,   170,
-      -1,    -1,   173,   109,    -1,   195,   112,   113,   198,    -1,
+     197,   198,    -1,     9,   121,   186,   169,   170,    -1,    -1,
+     173,    17,   169,   170,    -1,    -1,   173,    -1,   199,    -1,
+      26,   169,   170,    -1,     0,   173,    -1,    -1,   195,    -1,
+     197,   194,   195,     9,    -1,   198,    -1,    -1,   195,    45,
+      -1,   198,    -1,    -1,    -1,    51,    -1,   195,    54,    55,
+     198,   104,   169,   170,    -1,    -1,   173,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,   121,    45,
+      76,    -1,    78,    79,    -1,    81,    82,    83,   195,    55,
+      -1,   198,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    72,    -1,    -1,    -1,
+      76,    -1,    -1,   109,    -1,    81,   112,   113,    -1,    -1,
      116,   117,   118,   119,    -1,   121,   169,   170,    -1,   125,
-     173,    -1,   128,   129,   195,   131,   132,   198,    -1,    -1,
-     136,   137,   104,    -1,   104,    -1,    -1,    -1,    -1,   169,
-     170,    -1,   195,   173,   104,   198,    -1,    -1,    -1,   121,
-     104,   121,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
-      -1,   121,    -1,    -1,    -1,   195,    -1,   121,   198,   175,
-     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     173,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,   104,    -1,   104,    -1,    -1,   113,    -1,    -1,
+      -1,    -1,   195,   119,   104,   198,    -1,    -1,    -1,   121,
+      -1,   121,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,   121,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,   104,   185,
      186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
-      -1,   197,   198,    -1,     9,    -1,    -1,   169,   170,   169,
+      -1,   197,   198,    -1,     9,   121,    -1,   169,   170,   169,
      170,   173,    17,   173,    -1,   104,    -1,    -1,    -1,   169,
-     170,    26,    -1,   173,    -1,   169,   170,    -1,    -1,   173,
-      -1,    -1,   121,   195,    -1,   195,   198,    -1,   198,    -1,
+     170,    26,    -1,   173,    -1,    -1,    -1,    -1,    -1,   195,
+      -1,   197,   121,   195,   104,   195,   198,    -1,   198,    -1,
       45,    -1,    -1,    -1,    -1,   195,    51,    -1,   198,    54,
-      55,   195,   104,    -1,   198,    -1,    -1,    -1,    -1,    -1,
-      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,   121,
-      -1,    76,    -1,    78,    79,   104,    81,    82,    83,    -1,
-     169,   170,    -1,    -1,   173,    90,    -1,    92,    -1,    94,
-      95,    -1,   121,    -1,    99,   100,   101,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   109,    -1,   195,   112,   113,   198,
-      -1,   116,   117,   118,   119,    -1,   121,   169,   170,    -1,
-     125,   173,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
-      -1,   136,   137,   104,    -1,   104,    -1,    -1,    -1,    -1,
-     169,   170,    -1,   195,   173,   104,   198,    -1,    -1,    -1,
-     121,   104,   121,    -1,    -1,    -1,    -1,   162,   163,   164,
-      -1,    -1,   121,    -1,    -1,    -1,   195,    -1,   121,   198,
-     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+      55,   121,    -1,   169,   170,    -1,    -1,   173,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,   195,
+     169,   170,   198,    -1,   173,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,   169,
+     170,    -1,    -1,   173,   109,    -1,   195,   112,   113,   198,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    11,
+     125,    -1,    -1,   128,   129,   195,   131,   132,   198,    -1,
+      -1,   136,   137,    25,    -1,   104,    -1,    29,    30,    31,
+      32,    33,    -1,    35,   104,    -1,    -1,    -1,    -1,    -1,
+      -1,    43,   121,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,   121,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    68,   182,   183,    -1,
      185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
-     195,    -1,   197,   198,    -1,     9,    -1,    -1,   169,   170,
-     169,   170,   173,    17,   173,    -1,   104,    -1,    -1,    -1,
-     169,   170,    26,    -1,   173,    -1,   169,   170,    -1,    -1,
-     173,    -1,    -1,   121,   195,    -1,   195,   198,    -1,   198,
-      -1,    45,    -1,    -1,    -1,    -1,   195,    51,    -1,   198,
-      54,    55,   195,   104,    -1,   198,    -1,    -1,    -1,    -1,
+     195,    -1,   197,   198,    86,     9,    88,    89,    -1,    -1,
+     169,   170,    -1,    17,   173,    -1,   104,    -1,    -1,   169,
+     170,   103,    26,   173,    -1,    -1,   108,    -1,   110,    -1,
+      -1,    -1,    -1,   121,    -1,   104,   195,    -1,   120,   198,
+      -1,    45,    -1,    -1,    -1,   195,    -1,    51,   198,    -1,
+      54,    55,   121,   104,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
-     121,    -1,    76,    -1,    78,    79,   104,    81,    82,    83,
-      -1,   169,   170,    -1,    -1,   173,    90,    -1,    92,    -1,
-      94,    95,    -1,   121,    -1,    99,   100,   101,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   109,    -1,   195,   112,   113,
+     121,   153,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,   169,   170,    -1,    -1,   173,    90,    54,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+     169,   170,    -1,    -1,   173,   109,    -1,   195,   112,   113,
      198,    -1,   116,   117,   118,   119,    -1,   121,   169,   170,
-      -1,   125,   173,    -1,   128,   129,    -1,   131,   132,    -1,
-      -1,    -1,   136,   137,   104,    -1,   104,    -1,    -1,    -1,
-      -1,   169,   170,    -1,   195,   173,    -1,   198,    -1,    -1,
-      -1,   121,    -1,   121,    -1,    -1,    -1,    -1,   162,   163,
-     164,    -1,    -1,    -1,    -1,    -1,    -1,   195,    -1,    -1,
-     198,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
-      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
-       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,   169,
-     170,   169,   170,   173,    17,   173,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   195,    -1,   195,   198,    -1,
+      -1,   125,   173,    -1,   128,   129,   195,   131,   132,   198,
+      -1,    -1,   136,   137,   101,    -1,   104,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   195,    -1,    -1,   198,    -1,   116,
+      -1,    -1,    -1,   121,   121,    -1,    -1,    -1,   162,   163,
+     164,    -1,   129,    -1,    -1,    -1,    -1,    -1,    -1,   136,
+     137,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+     104,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,   121,    -1,    -1,
+      -1,   169,   170,    -1,    17,   173,    -1,   104,   175,   176,
+     177,   178,   179,    26,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,   121,   192,   104,   195,    -1,    -1,
      198,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
-      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    54,    55,   121,   104,   169,   170,    -1,    -1,   173,
       -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
-      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
-      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
-      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
-     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
-      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
-      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
-     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+      -1,   121,    -1,    76,    -1,    78,    79,   104,    81,    82,
+      83,   195,   169,   170,   198,    -1,   173,    90,    -1,    92,
+      -1,    94,    95,    -1,   121,    -1,    99,   100,   101,    -1,
+      -1,   169,   170,    -1,    -1,   173,   109,    -1,   195,   112,
+     113,   198,    -1,   116,   117,   118,   119,    -1,   121,   169,
+     170,    -1,   125,   173,    -1,   128,   129,   195,   131,   132,
+     198,    -1,    -1,   136,   137,   104,    -1,   104,    -1,    -1,
+      -1,    -1,   169,   170,    -1,   195,   173,   104,   198,    -1,
+      -1,    -1,   121,   104,   121,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,   121,    -1,    -1,    -1,   195,    -1,
+     121,   198,   175,   176,   177,   178,   179,    -1,    -1,   182,
      183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
      193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+     169,   170,   169,   170,   173,    17,   173,    -1,   104,    -1,
+      -1,    -1,   169,   170,    26,    -1,   173,    -1,   169,   170,
+      -1,    -1,   173,    -1,    -1,   121,   195,    -1,   195,   198,
+      -1,   198,    -1,    45,    -1,    -1,    -1,    -1,   195,    51,
+      -1,   198,    54,    55,   195,   104,    -1,   198,    -1,    -1,
       -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
-      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
-     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+      72,    -1,   121,    -1,    76,    -1,    78,    79,   104,    81,
+      82,    83,    -1,   169,   170,    -1,    -1,   173,    90,    -1,
+      92,    -1,    94,    95,    -1,   121,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,   195,
+     112,   113,   198,    -1,   116,   117,   118,   119,    -1,   121,
+     169,   170,    -1,   125,   173,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,   104,    -1,   104,    -1,
+      -1,    -1,    -1,   169,   170,    -1,   195,   173,   104,   198,
+      -1,    -1,    -1,   121,   104,   121,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,   121,    -1,    -1,    -1,   195,
+      -1,   121,   198,   175,   176,   177,   178,   179,    -1,    -1,
      182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
      192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
-      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,   169,   170,   169,   170,   173,    17,   173,    -1,   104,
+      -1,    -1,    -1,   169,   170,    26,    -1,   173,    -1,   169,
+     170,    -1,    -1,   173,    -1,    -1,   121,   195,    -1,   195,
+     198,    -1,   198,    -1,    45,    -1,    -1,    -1,    -1,   195,
+      51,    -1,   198,    54,    55,   195,    -1,    -1,   198,    -1,
       -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
       71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
-      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      81,    82,    83,    -1,   169,   170,    -1,    -1,   173,    90,
       -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
      101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
-      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     195,   112,   113,   198,    -1,   116,   117,   118,   119,    -1,
      121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
      131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
@@ -4839,63 +4861,16 @@ static const yytype_int16 yycheck[] =
      109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
      119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
      129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
-      -1,    -1,     3,   162,   163,   164,    -1,    -1,     9,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
-     179,    -1,    -1,   182,   183,    26,   185,   186,   187,   188,
-     189,   190,    -1,   192,   193,    -1,   195,    -1,   197,   198,
-      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
-      51,     0,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
-       9,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
-      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
-      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
-      -1,    92,    -1,    94,    95,    -1,    45,    -1,    99,   100,
-     101,    -1,    -1,    -1,    -1,    -1,    55,    -1,   109,    -1,
-      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
-     121,    -1,    -1,    72,   125,    -1,    -1,    76,   129,    -1,
-     131,   132,    81,    -1,    -1,   136,   137,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   162,   163,   164,   113,    -1,    -1,   116,    -1,    -1,
-     119,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
-      -1,   182,   183,   132,   185,   186,   187,   188,   189,   190,
-       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
-      -1,    51,    -1,    -1,    54,    55,   195,    -1,   197,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
-      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
-      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
-      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
-     100,   101,     0,    -1,    -1,    -1,    -1,    -1,    -1,   109,
-      -1,     9,   112,   113,    -1,    -1,   116,   117,   118,   119,
-      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
-      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,     0,    55,    -1,     3,
-      -1,    -1,   162,   163,   164,     9,    -1,    -1,    -1,    -1,
-      -1,    69,    -1,    17,    72,   175,   176,   177,    76,    -1,
-      -1,    -1,    26,    81,    -1,   185,   186,   187,   188,   189,
-     190,    -1,   192,   193,    -1,   195,    -1,   197,   198,    -1,
-      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
-      54,    55,    -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,
-      -1,   119,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
-      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
-      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
-      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
-      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
-      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
-      -1,    -1,   136,   137,    -1,    -1,    -1,   195,    -1,   197,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,   162,   163,
-     164,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
-      -1,   175,   176,   177,    -1,    -1,    -1,    -1,    26,    -1,
-      -1,   185,   186,   187,   188,   189,   190,    -1,   192,   193,
-      -1,   195,    -1,   197,   198,    -1,    -1,    45,    -1,    -1,
       -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
       -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
@@ -4906,530 +4881,709 @@ static const yytype_int16 yycheck[] =
      118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
      128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,
-      -1,     3,    -1,    -1,   162,   163,   164,     9,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    17,    -1,   175,   176,   177,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,   185,   186,   187,
-     188,   189,   190,    -1,   192,   193,    -1,   195,    -1,   197,
-     198,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
-      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
-     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,
-     162,   163,   164,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    17,    -1,   175,   176,   177,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,   185,   186,   187,   188,   189,   190,    -1,
-     192,   193,    -1,   195,    -1,   197,   198,    -1,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
-      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
-      -1,    -1,    -1,     0,    90,    -1,    92,    -1,    94,    95,
-      -1,    -1,     9,    99,   100,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
-     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    45,    -1,
-     136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,
-      -1,    58,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,
-      -1,    -1,     9,    -1,    -1,    72,   162,   163,   164,    76,
-      17,    -1,    -1,    -1,    81,    -1,    -1,    -1,    -1,    26,
-      -1,    -1,   178,   179,    -1,    -1,   182,   183,    -1,   185,
-     186,   187,   188,   189,   190,    -1,   192,   193,    45,   195,
-      -1,   197,   198,    -1,    51,    -1,   113,    54,    55,    -1,
-      -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    -1,    66,
-      -1,    -1,    69,    -1,    71,    72,   133,    -1,    -1,    76,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
       -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
       -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
-      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
      117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
-      -1,   128,   129,    -1,   131,   132,    -1,   194,   195,   136,
-     197,   198,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,
-      -1,     9,    -1,    -1,    -1,   162,   163,   164,    -1,    17,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
-      -1,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
-     187,   188,   189,   190,    -1,   192,   193,    45,   195,    -1,
-     197,   198,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
-      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
-      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
-      -1,     0,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
-       9,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
-     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
-     128,   129,    -1,   131,   132,    -1,    45,    -1,   136,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,    -1,    58,
-      -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,
-       9,    -1,    -1,    72,   162,   163,   164,    76,    17,    -1,
-      -1,    -1,    81,    -1,    -1,    -1,    -1,    26,    -1,    -1,
-     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
-     188,   189,   190,    -1,   192,   193,    45,   195,    -1,   197,
-     198,    -1,    51,    -1,   113,    54,    55,    -1,    -1,    -1,
-     119,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
-      69,    -1,    71,    72,   133,    -1,    -1,    76,    -1,    78,
-      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
-      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
-      99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
-     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
-     129,    -1,   131,   132,    -1,   194,   195,   136,   197,   198,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-       0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,     9,
-      -1,    -1,    -1,   162,   163,   164,    -1,    17,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,   178,
-     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
-     189,   190,    -1,   192,   193,    45,   195,    -1,   197,   198,
-      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
-      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
-      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
-      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
-     100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
-      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
-      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
-      -1,   131,   132,    -1,    -1,    -1,   136,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
-      -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,
-      -1,    -1,   162,   163,   164,    -1,    17,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,   178,   179,
-      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
-     190,    -1,   192,   193,    45,   195,    -1,   197,   198,    -1,
-      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
-      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
-      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
-      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
-      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
-     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
-     131,   132,    -1,    -1,    -1,   136,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,
-      -1,     3,    -1,    -1,    -1,    -1,     0,     9,    -1,    -1,
-      -1,   162,   163,   164,    -1,     9,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,   178,   179,    -1,
-      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
-      -1,   192,   193,    45,   195,    -1,   197,   198,    -1,    51,
-      -1,    45,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    55,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    69,    78,    79,    72,    81,
-      82,    83,    76,    -1,    -1,    -1,    -1,    81,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   113,
-      -1,    -1,   116,   125,    -1,   119,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,   132,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,   195,    -1,   197,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,     0,    -1,    -1,     3,   162,   163,   164,
+      -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    26,
+     185,   186,   187,   188,   189,   190,    -1,   192,   193,    -1,
+     195,    -1,   197,   198,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,     0,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      45,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      55,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    72,   125,    -1,
+      -1,    76,   129,    -1,   131,   132,    81,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,   113,    -1,
+      -1,   116,    -1,    -1,   119,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,   132,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+     195,    -1,   197,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,     0,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,     9,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+       0,    55,    -1,     3,    -1,    -1,   162,   163,   164,     9,
+      -1,    -1,    -1,    -1,    -1,    69,    -1,    17,    72,   175,
+     176,   177,    76,    -1,    -1,    -1,    26,    81,    -1,   185,
+     186,   187,   188,   189,   190,    -1,   192,   193,    -1,   195,
+      -1,   197,   198,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,   113,
+      -1,    -1,    -1,    -1,    -1,   119,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,   195,    -1,   197,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,     3,
+      -1,    -1,   162,   163,   164,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,   175,   176,   177,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,   185,   186,   187,   188,   189,
+     190,    -1,   192,   193,    -1,   195,    -1,   197,   198,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,   162,   163,
+     164,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,   175,   176,   177,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,   185,   186,   187,   188,   189,   190,    -1,   192,   193,
+      -1,   195,    -1,   197,   198,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,
+      -1,     3,    -1,    -1,   162,   163,   164,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,   175,   176,   177,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,   185,   186,   187,
+     188,   189,   190,    -1,   192,   193,    -1,   195,    -1,   197,
+     198,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
       72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      82,    83,    -1,    -1,    -1,    -1,    -1,     0,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,     9,    99,   100,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    45,    -1,   136,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    55,    -1,    -1,    58,    -1,     0,    -1,    -1,
+       3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,    72,
+     162,   163,   164,    76,    17,    -1,    -1,    -1,    81,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,    -1,
+     192,   193,    45,   195,    -1,   197,   198,    -1,    51,    -1,
+     113,    54,    55,    -1,    -1,    -1,   119,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+     133,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,   194,   195,   136,   197,   198,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,     3,
+      -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,   162,
+     163,   164,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,    -1,   192,
+     193,    45,   195,    -1,   197,   198,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,     0,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,     9,    99,   100,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      45,    -1,   136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      55,    -1,    -1,    58,    -1,     0,    -1,    -1,     3,    -1,
+      -1,    -1,    -1,    -1,     9,    -1,    -1,    72,   162,   163,
+     164,    76,    17,    -1,    -1,    -1,    81,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,    -1,   192,   193,
+      45,   195,    -1,   197,   198,    -1,    51,    -1,   113,    54,
+      55,    -1,    -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,   133,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,   194,
+     195,   136,   197,   198,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,
+      -1,    -1,    -1,     9,    -1,    -1,    -1,   162,   163,   164,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,    -1,   192,   193,    45,
+     195,    -1,   197,   198,    -1,    51,    -1,    -1,    54,    55,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,
+      -1,    -1,     9,    -1,    -1,    -1,   162,   163,   164,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,    -1,   192,   193,    45,   195,
+      -1,   197,   198,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,
+       0,     9,    -1,    -1,    -1,   162,   163,   164,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,    -1,   192,   193,    45,   195,    -1,
+     197,   198,    -1,    51,    -1,    45,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    55,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    69,
+      78,    79,    72,    81,    82,    83,    76,    -1,    -1,    -1,
+      -1,    81,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   113,    -1,    -1,   116,   125,    -1,   119,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,   132,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,   195,    -1,   197,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,     0,   131,   132,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,    -1,   195,    66,   197,
+     198,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,    -1,
+      -1,    -1,    -1,   131,   132,     0,    -1,    -1,     3,    -1,
+      -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
-     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    26,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
-      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
-     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
-      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,    -1,   131,
-     132,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,
-       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
-     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,    -1,    58,
-      -1,   193,    -1,   195,    63,   197,   198,    66,    -1,    -1,
-      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
-      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    91,    -1,    -1,    94,    95,    -1,    -1,    -1,
-      99,   100,    -1,    -1,    -1,   104,    -1,    -1,    -1,     0,
-      -1,    -1,     3,    -1,   113,    -1,    -1,    -1,     9,    -1,
-     119,    -1,   121,    -1,   123,    -1,   125,    -1,    -1,    -1,
-      -1,    -1,   131,    -1,   133,    26,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      55,    -1,    -1,    58,    -1,   193,    -1,   195,    63,   197,
+     198,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    91,    -1,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,   104,
+      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,   113,    -1,
+      -1,    -1,     9,    -1,   119,    -1,   121,    -1,   123,    -1,
+     125,    -1,    -1,    -1,    -1,    -1,   131,    -1,   133,    26,
+      -1,    -1,     0,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,
+      -1,    58,    -1,    -1,   169,   170,    63,    -1,   173,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    45,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    55,    -1,   194,
+     195,   196,   197,   198,    91,    -1,    -1,    94,    95,    -1,
+      -1,    69,    99,   100,    72,    -1,    -1,   104,    76,     0,
+      -1,    -1,    -1,    81,    -1,    83,   113,    -1,     9,    -1,
+      -1,    -1,   119,    -1,   121,    -1,   123,    -1,   125,    -1,
+      -1,    -1,    -1,    -1,   131,    26,   133,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,
+      -1,   119,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   169,   170,    -1,    66,   173,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,     0,    78,    79,     3,
+      81,    82,    83,    -1,    -1,     9,    -1,   194,   195,    -1,
+     197,   198,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   113,    -1,    -1,    -1,    -1,   195,   119,   197,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     131,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,   162,   163,   164,     0,    -1,    -1,    -1,    -1,    -1,
+      -1,    95,    -1,     9,    -1,    99,   100,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   113,
+      26,    -1,   193,    -1,   195,   119,   197,   198,    -1,    -1,
+      -1,   125,    -1,    -1,    -1,    -1,    -1,   131,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    55,    -1,    -1,    58,    -1,    -1,
-     169,   170,    63,    -1,   173,    66,    -1,    -1,    69,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,     0,
+      76,    -1,    78,    79,    -1,    81,    82,    83,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,
+      -1,    -1,    -1,    99,   100,    26,    -1,    -1,    -1,    -1,
+      -1,   195,    -1,   197,   198,    -1,    -1,   113,    -1,    -1,
+     116,    -1,    -1,   119,    45,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    55,   131,   132,    -1,    -1,    -1,
+       0,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,     9,
       71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
-      81,    82,    83,    -1,    -1,   194,   195,   196,   197,   198,
-      91,    -1,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
-      -1,    -1,    -1,   104,    -1,     0,    -1,    -1,     3,    -1,
-      -1,    -1,   113,    -1,     9,    -1,    -1,    -1,   119,    -1,
-     121,    -1,   123,    -1,   125,    -1,    -1,    -1,    -1,    -1,
-     131,    26,   133,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,    -1,
-      45,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   169,   170,
-      26,    66,   173,    -1,    69,    -1,    71,    72,    -1,    -1,
-      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    45,
-      -1,    -1,    -1,   194,   195,    -1,   197,   198,    -1,    55,
+      81,    82,    83,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    -1,   113,    -1,    -1,    55,    -1,    -1,   119,   195,
+      -1,   197,   198,    -1,    -1,    -1,    66,    -1,    -1,    69,
+     131,    71,    72,    -1,    -1,     0,    76,    -1,    78,    79,
+      -1,    81,    82,    83,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    95,    -1,    -1,    -1,    99,
+     100,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,   119,
+      45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      55,   131,    -1,   194,   195,    -1,   197,   198,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,     0,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,
       95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,   113,    -1,
-      76,    -1,    78,    79,   119,    81,    82,    83,    -1,    -1,
-     125,    -1,    -1,    -1,    -1,    -1,   131,    -1,     0,    95,
-      -1,    -1,    -1,    99,   100,    -1,     0,     9,    -1,     3,
-      -1,    -1,    -1,    -1,    -1,     9,    -1,   113,    -1,    -1,
-     116,    -1,    -1,   119,    26,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   131,   132,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    45,    -1,    55,    -1,    -1,    -1,    51,    -1,    -1,
-     195,    55,   197,   198,    66,    -1,    -1,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    69,    78,    79,    72,    81,
-      82,    83,    76,    -1,    -1,    -1,    -1,    81,    -1,    83,
-      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,   195,
-      94,   197,   198,    -1,    -1,    -1,    -1,     0,    -1,    -1,
-      -1,   113,    -1,    -1,    -1,    -1,     9,   119,    -1,   113,
-      -1,    -1,   116,    -1,    -1,   119,    -1,    -1,    -1,   131,
-      -1,   125,    -1,    26,    -1,    -1,    -1,    -1,   132,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,   162,   163,
-     164,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
-      -1,    -1,     0,    76,    -1,    78,    79,    -1,    81,    82,
-      83,     9,   194,   195,    -1,   197,   198,    -1,    -1,   193,
-      -1,   195,    95,   197,   198,    -1,    99,   100,    26,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     113,    -1,    -1,    -1,    -1,    -1,   119,    45,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,   131,    -1,
-      -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,    66,    -1,
-      -1,    69,     9,    71,    72,    -1,    -1,    -1,    76,    -1,
-      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    26,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,
+      -1,    -1,    -1,    -1,   119,   195,    -1,   197,   198,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,   131,    -1,    -1,    -1,
+      55,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,     9,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,
+     195,    55,   197,   198,   119,    -1,     3,     4,     5,     6,
+      -1,    -1,    66,    -1,    -1,    69,   131,    71,    72,    -1,
+      -1,     0,    76,    -1,    78,    79,    -1,    81,    82,    83,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    95,    -1,    -1,    -1,    99,   100,    26,    -1,    46,
+      47,    48,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   113,
+      -1,    -1,    -1,    -1,    -1,   119,    45,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    55,   131,    -1,    -1,
+     195,    -1,   197,   198,    -1,    -1,    -1,    66,    85,    -1,
+      69,    88,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,     0,    81,    82,    83,    -1,    -1,   104,    -1,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    95,    -1,   115,    -1,
+      99,   100,    -1,    -1,   121,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,   135,    -1,
+     119,   195,    -1,   197,   198,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,   131,   150,   151,   152,    55,    -1,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,     9,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    26,   186,
+     187,    -1,    -1,    -1,    -1,    -1,    95,   194,    -1,    -1,
+      99,   100,   199,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    -1,   113,    -1,   195,    55,   197,   198,
+     119,    -1,     3,     4,     5,     6,    -1,    -1,    66,    -1,
+      -1,    69,   131,    71,    72,    -1,    -1,     0,    76,    -1,
+      78,    79,    -1,    81,    82,    83,     9,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,    -1,
-      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    45,    -1,
-      -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,    55,    -1,
-      -1,   119,   195,    -1,   197,   198,    -1,    -1,    -1,    66,
-      -1,    -1,    69,   131,    71,    72,    -1,    -1,     0,    76,
-      -1,    78,    79,    -1,    81,    82,    83,     9,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,
-      -1,    -1,    99,   100,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    99,   100,    26,    -1,    46,    47,    48,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,
+      -1,   119,    45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    55,   131,    -1,    -1,   195,    -1,   197,   198,
+      -1,    -1,    -1,    66,    85,    -1,    69,    88,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,     0,    81,    82,
+      83,    -1,    -1,   104,    -1,    -1,     9,    -1,    -1,    -1,
+      -1,   112,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,
+     121,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+     113,    -1,    -1,    -1,   135,    -1,   119,   195,    -1,   197,
+     198,    -1,    45,    -1,    -1,    -1,    -1,    -1,   131,   150,
+     151,   152,    55,    -1,    -1,    -1,    -1,    -1,     0,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,     9,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    26,   186,   187,    -1,    -1,    -1,
+      -1,    -1,    95,   194,    -1,    -1,    99,   100,   199,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,
+     113,    -1,   195,    55,   197,   198,   119,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,   131,    71,
+      72,    -1,    -1,     0,    76,    -1,    78,    79,    -1,    81,
+      82,    83,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   113,    -1,    -1,    -1,    -1,    -1,   119,    45,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,   131,
+      -1,    -1,   195,    -1,   197,   198,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,     0,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    95,    -1,
+      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    26,
       -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,
-      -1,    -1,   119,    45,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    55,   131,    -1,    -1,   195,    -1,   197,
-     198,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,     0,    81,
-      82,    83,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
-      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
-      -1,   113,    -1,    -1,    -1,    -1,    -1,   119,   195,    -1,
-     197,   198,    -1,    45,    -1,    -1,    -1,    -1,    -1,   131,
-      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,     0,
-      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,     9,    71,
-      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
-      82,    83,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,    -1,
-      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
-      -1,   113,    -1,   195,    55,   197,   198,   119,    -1,     3,
-       4,     5,     6,    -1,    -1,    66,    -1,    -1,    69,   131,
-      71,    72,    -1,    -1,     0,    76,    -1,    78,    79,    -1,
-      81,    82,    83,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,
-      26,    -1,    46,    47,    48,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,   119,    45,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,
-     131,    -1,    -1,   195,    -1,   197,   198,    -1,    -1,    -1,
-      66,    85,    -1,    69,    88,    71,    72,    -1,    -1,    -1,
-      76,    -1,    78,    79,     0,    81,    82,    83,    -1,    -1,
-     104,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    95,
-      -1,   115,    -1,    99,   100,    -1,    -1,   121,    -1,    -1,
-      26,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,
-      -1,   135,    -1,   119,   195,    -1,   197,   198,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,   131,   150,   151,   152,    55,
-      -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,     9,    71,    72,    -1,    -1,    -1,
-      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
-      -1,    26,   186,   187,    -1,    -1,    -1,    -1,    -1,    95,
-     194,    -1,    -1,    99,   100,   199,    -1,    -1,    -1,    -1,
-      45,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,   195,
-      55,   197,   198,   119,    -1,     3,     4,     5,     6,    -1,
-      -1,    66,    -1,    -1,    69,   131,    71,    72,    -1,    -1,
-       0,    76,    -1,    78,    79,    -1,    81,    82,    83,     9,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      95,    -1,    -1,    -1,    99,   100,    26,    -1,    46,    47,
-      48,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,
-      -1,    -1,    -1,    -1,   119,    45,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    55,   131,    -1,    -1,   195,
-      -1,   197,   198,    -1,    -1,    -1,    66,    85,    -1,    69,
-      88,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
-       0,    81,    82,    83,    -1,    -1,   104,    -1,    -1,     9,
-      -1,    -1,    -1,    -1,   112,    95,    -1,    -1,    -1,    99,
-     100,    -1,    -1,   121,    -1,    -1,    26,    -1,    -1,    -1,
-      -1,    -1,    -1,   113,    -1,    -1,    -1,   135,    -1,   119,
-     195,    -1,   197,   198,    -1,    45,    -1,    -1,    -1,    -1,
-      -1,   131,   150,   151,   152,    55,    -1,    -1,    -1,    -1,
-      -1,     0,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
-       9,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
-      -1,    81,    82,    83,    -1,    -1,    -1,    26,   186,   187,
-      -1,    -1,    -1,    -1,    -1,    95,   194,    -1,    -1,    99,
-     100,   199,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
-      -1,    -1,    -1,   113,    -1,   195,    55,   197,   198,   119,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
-      69,   131,    71,    72,    -1,    -1,     0,    76,    -1,    78,
-      79,    -1,    81,    -1,    83,     9,    -1,    -1,    -1,     0,
-      -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,     9,    -1,
-      99,   100,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,
-     119,    45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    55,    -1,    -1,    45,   195,    -1,   197,   198,    -1,
-      51,    -1,    66,    -1,    55,    69,    -1,    71,    72,    -1,
-      -1,    -1,    76,    -1,    78,    79,    -1,    81,    69,    83,
-      -1,    72,    -1,    -1,     0,    76,    -1,    -1,    -1,    -1,
-      81,    95,    83,     9,    -1,    99,   100,    -1,    -1,    -1,
-      -1,    -1,    -1,    94,    -1,    -1,    -1,    -1,    -1,   113,
-      -1,    -1,    -1,    -1,    -1,   119,   195,    -1,   197,   198,
-      -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,   119,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    -1,    55,
-      -1,     0,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-       9,    -1,    -1,    69,    -1,    -1,    72,    -1,    -1,    -1,
-      76,    -1,    -1,    -1,    -1,    81,    -1,    83,    -1,    -1,
-      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    94,    -1,
-      -1,     0,    -1,    -1,    -1,    -1,    45,    -1,    -1,     0,
-       9,   195,    51,   197,   198,    -1,    55,   113,     9,    -1,
-      -1,    -1,   193,   119,   195,    -1,   197,   198,    -1,    -1,
-      69,    -1,    -1,    72,    -1,    -1,    -1,    76,    -1,    -1,
-      -1,    -1,    81,    -1,    83,    -1,    45,    -1,    -1,    -1,
-      -1,    -1,    51,    -1,    45,    94,    55,    -1,    -1,    -1,
-      51,    -1,    -1,     0,    55,    -1,   162,   163,   164,    -1,
-      69,    -1,     9,    72,   113,    -1,    -1,    76,    69,    -1,
-     119,    72,    81,    -1,    83,    76,    -1,    -1,    -1,    -1,
-      81,    -1,    83,    -1,    -1,    94,    -1,   193,     0,   195,
-      -1,   197,   198,    94,    -1,    -1,    -1,     9,    45,    -1,
-      -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    55,    -1,
-     119,    -1,   113,   162,   163,   164,    -1,    -1,   119,    -1,
+      -1,    -1,   119,   195,    -1,   197,   198,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,   131,    -1,    -1,    -1,    55,     0,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     9,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    26,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,
+      -1,     0,    99,   100,    45,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    -1,    55,    -1,   113,    -1,   195,    -1,
+     197,   198,   119,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    -1,    83,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    95,    -1,    55,     0,    99,   100,
+      -1,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,
+      69,    -1,   113,    72,    -1,    -1,    -1,    76,   119,    -1,
+      -1,    -1,    81,    -1,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    94,    -1,     0,   195,    -1,
+     197,   198,    45,    -1,    -1,    -1,     9,    -1,    51,    -1,
+      -1,    -1,    55,    -1,   113,    -1,    -1,    -1,    -1,    -1,
+     119,    -1,    -1,    -1,    -1,    -1,    69,    -1,    -1,    72,
+      -1,    -1,    -1,    76,    -1,    -1,    -1,    -1,    81,    -1,
+      83,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    94,    55,    -1,   195,    -1,   197,   198,    -1,    -1,
+      -1,    -1,     0,   162,   163,   164,    69,    -1,    -1,    72,
+     113,     9,    -1,    76,    -1,    -1,   119,    -1,    81,    -1,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    94,    -1,    -1,   193,    -1,   195,    -1,   197,   198,
+      -1,    -1,     0,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+     113,     9,    -1,    51,    -1,    -1,   119,    55,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    69,    -1,    -1,    72,    -1,    -1,    -1,    76,    -1,
+      -1,    -1,    -1,    81,    -1,    83,    -1,    45,    -1,    -1,
+     193,    -1,   195,    51,   197,   198,    94,    55,     0,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    69,    -1,     0,    72,   113,    -1,    -1,    76,    -1,
+      -1,   119,     9,    81,    -1,    83,    -1,    -1,    -1,    -1,
+     193,    -1,   195,    -1,   197,   198,    94,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    55,    -1,   113,    -1,    -1,    45,    -1,
+      -1,   119,    -1,    -1,   162,   163,   164,    69,    55,     0,
+      72,    -1,    -1,    -1,    76,    -1,    -1,    -1,     9,    81,
+      -1,    83,    69,    -1,    -1,    72,    -1,    -1,    -1,    76,
+      -1,    -1,    94,    -1,    81,   193,    83,   195,    -1,   197,
+     198,    -1,    -1,     0,   162,   163,   164,    94,    -1,    -1,
+      -1,   113,     9,    -1,    45,    -1,    -1,   119,    -1,    -1,
+       3,     4,     5,     6,    55,    -1,   113,    -1,    -1,    12,
+      -1,    -1,   119,    -1,    -1,   193,    -1,   195,    69,   197,
+     198,    72,    -1,    -1,    -1,    76,    -1,    -1,    45,    -1,
+      81,    -1,    83,    -1,    -1,    -1,    -1,    -1,    55,    -1,
+      -1,    -1,    -1,    46,    47,    48,    -1,    -1,    -1,    -1,
       -1,    -1,    69,    -1,    -1,    72,    -1,    -1,    -1,    76,
-       0,    -1,    -1,    45,    81,    -1,    83,    -1,    -1,     9,
-      -1,    -1,    -1,    55,   193,    -1,   195,    94,   197,   198,
-       0,    -1,    -1,   162,   163,   164,    -1,    69,    -1,     9,
-      72,   162,   163,   164,    76,    -1,   113,    -1,    -1,    81,
-      -1,    83,   119,    -1,    -1,    45,    -1,    -1,    -1,    -1,
-      -1,    -1,    94,    -1,   193,    55,   195,    -1,   197,   198,
-      -1,    -1,   193,    -1,   195,    45,   197,   198,    -1,    69,
-      -1,   113,    72,    -1,    -1,    55,    76,   119,    -1,    -1,
-      -1,    81,    -1,    83,    -1,     0,    -1,    -1,    -1,    69,
-      -1,    -1,    72,    -1,     9,    -1,    76,    -1,    -1,    -1,
-      -1,    81,    -1,    83,    -1,     3,     4,     5,     6,    -1,
-      -1,    -1,    -1,   113,    12,    -1,    -1,    -1,   195,   119,
-     197,   198,    -1,    -1,    -1,    -1,     3,     4,     5,     6,
-      45,    -1,    -1,   113,    -1,    12,    -1,    -1,    -1,   119,
-      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    46,    47,
-      48,    -1,    -1,   195,    69,   197,    -1,    72,    -1,    -1,
-      -1,    76,    -1,    -1,    -1,    -1,    81,    -1,    83,    46,
-      47,    48,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    85,    -1,    -1,
-      88,    -1,    -1,    -1,    -1,   195,    -1,   197,   113,    -1,
-      -1,    -1,    -1,    -1,   119,    -1,   104,    -1,    85,    -1,
-      -1,    88,    -1,    -1,    -1,   195,    -1,   197,    -1,    -1,
-      -1,    -1,    -1,   121,    -1,    -1,   124,   104,    -1,    -1,
-      -1,    -1,    -1,     3,     4,     5,     6,   135,    -1,    -1,
-      -1,    -1,    12,    -1,   121,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   150,   151,   152,    -1,    -1,    -1,   135,     3,
-       4,     5,     6,    -1,    -1,    -1,    -1,    -1,    12,    -1,
-      -1,    -1,    -1,   150,   151,   152,    46,    47,    48,    -1,
-     195,    -1,   197,    -1,    -1,    -1,    -1,    -1,   186,   187,
-      -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,    -1,    -1,
-      -1,   199,    46,    47,    48,    -1,    -1,    -1,    -1,   186,
-     187,    -1,    -1,    -1,    -1,    85,   193,   194,    88,    -1,
-      -1,    -1,   199,    -1,    -1,    -1,    -1,     3,     4,     5,
-       6,    -1,    -1,    -1,   104,    -1,    12,    -1,    -1,    -1,
-      -1,    85,    -1,    -1,    88,     3,     4,     5,     6,    -1,
-      -1,   121,    -1,    -1,    12,     3,     4,     5,     6,    -1,
-     104,    -1,    -1,    -1,    -1,   135,    -1,    -1,    -1,    -1,
-      46,    47,    48,    -1,    -1,    -1,    -1,   121,    -1,    -1,
-     150,   151,   152,    -1,    -1,    -1,    -1,    -1,    46,    47,
-      48,   135,    -1,    -1,    -1,    -1,    -1,    -1,    46,    47,
-      48,    -1,    -1,    -1,    -1,    -1,   150,   151,   152,    85,
-      58,    -1,    88,    -1,    -1,    -1,   186,   187,    -1,    -1,
-      -1,    -1,    -1,    -1,   194,   195,    -1,    85,   104,   199,
-      88,    -1,    -1,    -1,    -1,    -1,    -1,    85,    -1,    -1,
-      88,    -1,   186,   187,    -1,   121,   104,    -1,    -1,    -1,
-     194,   195,    -1,    -1,    -1,   199,   104,    -1,    -1,   135,
-      -1,    -1,    -1,   121,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   121,   150,   151,   152,   135,    -1,    -1,
-      -1,     3,     4,     5,     6,    -1,    -1,   135,    -1,    -1,
-      -1,    -1,   150,   151,   152,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   150,   151,   152,     3,     4,     5,     6,    -1,
-     186,   187,    -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,
-      -1,    -1,    -1,   199,    46,    47,    48,    -1,   186,   187,
-      -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,   186,   187,
-      -1,   199,    -1,    -1,    -1,    -1,   194,    -1,    46,    47,
-      48,   199,    -1,    -1,    -1,    -1,    -1,    -1,     3,     4,
-       5,     6,    -1,    85,    -1,    -1,    88,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   104,    -1,    -1,    -1,    -1,    85,    -1,    -1,
-      88,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   121,
-      -1,    46,    47,    48,    -1,    -1,   104,    -1,    -1,    -1,
+      -1,    -1,   113,    -1,    81,    -1,    83,    -1,   119,     3,
+       4,     5,     6,   195,    -1,   197,   198,    -1,    12,    -1,
+      -1,    -1,    85,    -1,    -1,    88,    -1,    -1,   195,    -1,
+     197,     3,     4,     5,     6,    -1,   113,    -1,    -1,    -1,
+      12,   104,   119,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    46,    47,    48,    -1,    -1,    -1,   121,    -1,
+      -1,   124,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   135,    -1,    46,    47,    48,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   195,    -1,   197,   150,   151,   152,
+      -1,    85,    -1,    -1,    88,    -1,    -1,    -1,    -1,    -1,
+       3,     4,     5,     6,    -1,    -1,    -1,    -1,    -1,    12,
+     104,    -1,    -1,    85,    -1,    -1,    88,    -1,   195,    -1,
+     197,    -1,    -1,   186,   187,    -1,    -1,   121,    -1,    -1,
+      -1,   194,   104,    -1,    -1,    -1,   199,    -1,    -1,    -1,
+      -1,   135,    -1,    46,    47,    48,    -1,    -1,    -1,   121,
+      -1,    -1,    -1,    -1,    -1,    -1,   150,   151,   152,    -1,
       -1,    -1,    -1,   135,    -1,    -1,    -1,    -1,     3,     4,
-       5,     6,    -1,   121,    -1,    -1,    -1,    -1,   150,   151,
-     152,    -1,    -1,    -1,    -1,    -1,    -1,   135,    -1,    -1,
-      85,    -1,    -1,    88,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   150,   151,   152,    -1,    -1,    -1,    -1,   104,
-      -1,    -1,    47,    48,   186,   187,    -1,    -1,    -1,    -1,
-      -1,    -1,   194,    -1,    -1,    -1,   121,   199,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   186,   187,
-     135,    -1,    -1,    -1,    -1,    -1,   194,    -1,    -1,    -1,
-      85,   199,    -1,    88,    -1,   150,   151,   152,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,   104,
-      -1,    -1,    -1,     7,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    15,    -1,    -1,    -1,    -1,   121,    -1,    22,    -1,
-      -1,   186,   187,    27,    -1,    -1,    -1,    -1,    -1,   194,
-     135,    -1,    -1,    37,   199,    -1,    40,    41,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   150,   151,   152,    52,    53,
-      -1,    -1,    -1,    -1,    58,    -1,    -1,    -1,    62,    -1,
-      -1,    65,    -1,    -1,    -1,     7,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    15,    -1,    -1,    -1,    -1,    -1,    -1,
-      22,   186,   187,    87,    -1,    27,    -1,    91,    -1,   194,
-      -1,    -1,    -1,    -1,   199,    37,    -1,    -1,    40,    41,
-      -1,    -1,    -1,   107,    -1,    -1,    -1,    -1,    -1,   113,
-      52,    53,    -1,    -1,    -1,    -1,    58,    -1,    -1,    -1,
-      62,    -1,    -1,    65,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    87,    -1,    -1,    -1,    91,
-      -1,   155,   156,   157,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   107,    -1,    -1,    -1,    -1,
-      -1,   113,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     194,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   155,   156,   157,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   194
+       5,     6,    -1,    -1,    -1,    -1,    -1,    12,   150,   151,
+     152,    -1,    85,    -1,    -1,    88,     3,     4,     5,     6,
+      -1,    -1,   186,   187,    -1,    12,    -1,    -1,    -1,   193,
+     194,   104,    -1,    -1,    -1,   199,    -1,    -1,    -1,    -1,
+      -1,    46,    47,    48,   186,   187,    -1,    -1,   121,    -1,
+      -1,    -1,   194,   195,    -1,    -1,    -1,   199,    -1,    46,
+      47,    48,   135,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   150,   151,   152,
+      85,    -1,    -1,    88,     3,     4,     5,     6,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    85,   104,
+      -1,    88,    -1,    -1,    -1,    -1,    -1,    -1,     3,     4,
+       5,     6,    -1,   186,   187,    -1,   121,   104,    -1,    -1,
+      -1,   194,   195,    -1,    -1,    -1,   199,    46,    47,    48,
+     135,    -1,    -1,    -1,   121,    -1,    -1,    -1,    -1,    58,
+      -1,    -1,    -1,    -1,    -1,   150,   151,   152,   135,    -1,
+      -1,    46,    47,    48,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   150,   151,   152,    85,    -1,    -1,    88,
+      -1,    -1,    -1,    -1,    -1,    -1,     3,     4,     5,     6,
+      -1,   186,   187,    -1,    -1,   104,    -1,    -1,    -1,   194,
+      85,    -1,    -1,    88,   199,    -1,    -1,    -1,    -1,   186,
+     187,    -1,   121,    -1,    -1,    -1,    -1,   194,    -1,   104,
+      -1,    -1,   199,    -1,    -1,    -1,   135,    -1,    -1,    46,
+      47,    48,    -1,    -1,    -1,    -1,   121,    -1,    -1,    -1,
+      -1,   150,   151,   152,     3,     4,     5,     6,    -1,    -1,
+     135,    -1,    -1,    -1,     3,     4,     5,     6,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   150,   151,   152,    85,    -1,
+      -1,    88,     3,     4,     5,     6,    -1,   186,   187,    -1,
+      -1,    -1,    -1,    -1,    -1,   194,    -1,   104,    47,    48,
+     199,    -1,    -1,    -1,    -1,    -1,    -1,    46,    47,    48,
+      -1,   186,   187,    -1,   121,    -1,    -1,    -1,    -1,   194,
+      -1,    -1,    -1,    -1,   199,    -1,    47,    48,   135,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    85,    -1,    -1,    88,
+      -1,    -1,    -1,   150,   151,   152,    85,    -1,    -1,    88,
+      -1,    -1,    -1,    -1,    -1,   104,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    85,   104,    -1,    88,    -1,    -1,
+      -1,    -1,   121,    -1,    -1,    -1,    -1,    -1,    -1,   186,
+     187,    -1,   121,   104,    -1,    -1,   135,   194,    -1,    -1,
+      -1,    -1,   199,    -1,    -1,    -1,   135,    -1,    -1,    -1,
+     121,   150,   151,   152,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   150,   151,   152,   135,    -1,    -1,     0,    -1,    -1,
+      -1,    -1,    -1,    -1,     7,    -1,    -1,    -1,    -1,   150,
+     151,   152,    15,    -1,    -1,    -1,    -1,   186,   187,    22,
+      -1,    -1,    -1,    -1,    27,   194,    -1,   186,   187,    -1,
+     199,    -1,    -1,    -1,    37,   194,     7,    40,    41,    -1,
+     199,    -1,    -1,    -1,    15,   186,   187,    -1,    -1,    52,
+      53,    22,    -1,   194,    -1,    58,    27,    -1,   199,    62,
+      -1,    -1,    65,    -1,    -1,    -1,    37,    -1,    -1,    40,
+      41,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    52,    53,    -1,    87,    -1,    -1,    58,    91,    -1,
+      -1,    62,    -1,    -1,    65,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   107,    -1,    -1,    -1,    -1,    -1,
+     113,    -1,    -1,    -1,    -1,    -1,    87,    -1,    -1,    -1,
+      91,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   107,    -1,    -1,    -1,
+      -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   155,   156,   157,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   155,   156,   157,    -1,    -1,    -1,
+      -1,   194,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   194
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
@@ -5439,69 +5593,70 @@ static const yytype_int16 yystos[] =
        0,     7,    15,    22,    27,    37,    40,    41,    52,    53,
       62,    65,    87,    91,   107,   113,   155,   156,   157,   201,
      202,   203,   204,   208,   210,   212,   213,   219,   220,   221,
-     234,   236,   239,   240,   241,   243,   246,   327,   328,    27,
-       3,   316,     3,     3,   316,    70,    80,   111,    94,    94,
-      98,   315,   316,    80,   194,   249,   316,    70,    80,   111,
-      19,    60,     3,   329,   330,   154,   209,   209,   209,     0,
-     197,   334,   113,   205,   205,    58,   249,   250,   254,     3,
-     196,   194,    94,   127,   222,   222,   222,   316,     3,   214,
-     316,   123,   127,   235,   249,   250,   133,    94,   133,   235,
-     235,   235,   316,   125,   198,   203,    97,   124,   267,     9,
+     234,   236,   239,   240,   241,   243,   246,   328,   329,    27,
+       3,   317,     3,     3,   317,    70,    80,   111,    94,    94,
+      98,   316,   317,    80,   194,   249,   317,    70,    80,   111,
+      19,    60,     3,   330,   331,   154,   209,   209,   209,     0,
+     197,   335,   113,   205,   205,    58,   249,   250,   254,     3,
+     196,   194,    94,   127,   222,   222,   222,   317,     3,   214,
+     317,   123,   127,   235,   249,   250,   133,    94,   133,   235,
+     235,   235,   317,   125,   198,   203,    97,   124,   267,     9,
       45,    81,   251,   252,    76,   251,   262,     3,     4,     5,
        6,    48,    88,   104,   150,   151,   152,   186,   199,   270,
-     271,   272,   273,   301,   302,   303,   304,   305,   306,   307,
-     308,   309,     4,   211,   121,     3,   317,   316,   316,    83,
-     259,    93,   194,   242,     3,   244,   245,    46,   316,   195,
-     195,     4,   215,   215,   215,     3,   316,   316,   249,   330,
-     194,     6,   305,    12,   255,   247,   248,   249,   254,   115,
+     271,   272,   273,   302,   303,   304,   305,   306,   307,   308,
+     309,   310,     4,   211,   121,     3,   318,   317,   317,    83,
+     259,    93,   194,   242,     3,   244,   245,    46,   317,   195,
+     195,     4,   215,   215,   215,     3,   317,   317,   249,   331,
+     194,     6,   306,    12,   255,   247,   248,   249,   254,   115,
      253,   126,   247,    55,    72,   268,   138,   139,   140,   141,
-     142,   143,   144,   145,   146,   147,   148,   149,   294,   295,
-     296,   194,     4,     4,   304,   308,   195,   198,    46,   131,
+     142,   143,   144,   145,   146,   147,   148,   149,   295,   296,
+     297,   194,     4,     4,   305,   309,   195,   198,    46,   131,
       94,   125,   194,   242,     3,    46,    47,    48,    85,   121,
      135,   186,   187,   194,   275,   276,   277,   278,   279,   280,
-     281,   282,   284,   285,   286,   292,   293,   297,   298,   299,
-     300,   301,   215,     3,   335,    63,   250,   175,   198,   259,
-      91,   237,   238,   113,   194,   216,   216,   216,     3,   206,
-     207,   256,   269,   274,   275,   262,   251,   263,   264,   275,
-     262,   275,   115,   275,   119,   322,   323,   324,   273,   294,
-     272,   316,     3,   246,     3,   169,   170,   171,   223,   224,
-     225,   232,   125,   194,   196,   194,   194,   194,   112,   275,
-     283,    46,   121,   276,   192,   276,   250,   275,   116,   132,
-      17,    54,   101,   121,   128,   129,   136,   137,   175,   176,
-     177,   178,   179,   182,   183,   185,   186,   187,   188,   189,
-     190,   192,    98,   195,   198,   194,   275,   245,    39,   194,
-       3,    24,    49,   104,   217,   218,   259,   194,   195,   198,
-      94,   257,   258,   198,     3,   125,   320,   321,   268,   247,
-     198,    90,   117,   265,   268,    55,    55,    62,   134,   161,
-     172,   325,   324,   125,   194,    93,    11,    25,    29,    30,
-      31,    32,    33,    35,    43,    68,    86,    88,    89,   103,
-     108,   110,   120,   153,   226,   194,   172,   172,   195,   198,
-     246,   195,   255,     3,   187,   250,   294,   275,   275,   283,
-      92,   112,   118,   194,   121,   269,   195,   195,   275,   275,
-     276,   276,   101,   128,   194,   104,   121,   276,   276,   276,
-     276,   276,   276,   276,   276,   276,   276,   276,   276,   276,
-     276,   276,   305,   316,     3,   271,   235,   217,     4,     4,
-     214,     4,   195,   198,   271,   207,   194,   310,   311,   312,
-     313,   314,   316,   331,   259,   274,     3,   264,     3,   266,
-     322,   275,   275,   172,   161,   130,   158,   159,   326,   226,
-     335,   215,   194,   194,   228,   194,   194,   194,   227,   104,
-     121,   169,   170,   173,   229,   230,   231,   233,   335,   194,
-     194,   224,    77,   287,   269,   194,   195,    94,   125,   109,
-      92,   118,   275,   275,   250,   193,   116,   276,   194,   250,
-     269,   104,   193,   195,     3,   195,    24,    49,   218,   195,
-     246,    26,    66,    71,    78,    79,    95,   100,   332,   198,
-     125,   318,   319,   320,    69,   260,     3,    62,   335,   160,
-     195,   195,     6,     6,     6,     6,     6,   104,   172,   316,
-     231,   233,   195,   335,   335,   194,   195,   195,   255,   275,
-     226,   275,   275,   118,   109,   195,   276,   250,   269,   195,
-     195,     4,   214,   195,    99,    78,    78,    78,    99,   311,
-       3,   126,   326,   195,   195,   198,   195,   195,   195,   242,
-     195,   195,   105,   288,   287,   287,   269,   195,   195,   118,
-     275,   195,   195,   319,   312,   311,   194,   269,     6,   233,
-     126,   262,   195,    82,   131,   335,    51,   261,   195,   269,
-     162,   163,   164,   289,   290,   287,   194,   275,   333,   195,
-     275,   195,     6,    17,   165,   168,   291,   335,   166,   167,
-     291,   166,   167,   195,   116,   291
+     281,   282,   283,   285,   286,   287,   293,   294,   298,   299,
+     300,   301,   302,   215,     3,   336,    63,   250,   175,   198,
+     259,    91,   237,   238,   113,   194,   216,   216,   216,     3,
+     206,   207,   256,   269,   274,   275,   262,   251,   263,   264,
+     275,   262,   275,   115,   275,   119,   323,   324,   325,   273,
+     295,   272,   317,     3,   246,     3,   169,   170,   171,   223,
+     224,   225,   232,   125,   194,   196,   194,   194,   194,   112,
+     275,   284,    46,   121,   276,   281,   282,   300,   192,   121,
+     276,   250,   275,   116,   132,    17,    54,   101,   121,   128,
+     129,   136,   137,   175,   176,   177,   178,   179,   182,   183,
+     185,   186,   187,   188,   189,   190,   192,    98,   195,   198,
+     194,   275,   245,    39,   194,     3,    24,    49,   104,   217,
+     218,   259,   194,   195,   198,    94,   257,   258,   198,     3,
+     125,   321,   322,   268,   247,   198,    90,   117,   265,   268,
+      55,    55,    62,   134,   161,   172,   326,   325,   125,   194,
+      93,    11,    25,    29,    30,    31,    32,    33,    35,    43,
+      68,    86,    88,    89,   103,   108,   110,   120,   153,   226,
+     194,   172,   172,   195,   198,   246,   195,   255,     3,   187,
+     250,   295,   275,   275,   284,    92,   112,   118,   194,   269,
+     276,   121,   195,   195,   275,   275,   276,   276,   101,   128,
+     194,   104,   121,   276,   276,   276,   276,   276,   276,   276,
+     276,   276,   276,   276,   276,   276,   276,   276,   306,   317,
+       3,   271,   235,   217,     4,     4,   214,     4,   195,   198,
+     271,   207,   194,   311,   312,   313,   314,   315,   317,   332,
+     259,   274,     3,   264,     3,   266,   323,   275,   275,   172,
+     161,   130,   158,   159,   327,   226,   336,   215,   194,   194,
+     228,   194,   194,   194,   227,   104,   121,   169,   170,   173,
+     229,   230,   231,   233,   336,   194,   194,   224,    77,   288,
+     269,   194,   195,    94,   125,   109,    92,   118,   275,   275,
+     250,   193,   116,   276,   194,   250,   269,   104,   193,   195,
+       3,   195,    24,    49,   218,   195,   246,    26,    66,    71,
+      78,    79,    95,   100,   333,   198,   125,   319,   320,   321,
+      69,   260,     3,    62,   336,   160,   195,   195,     6,     6,
+       6,     6,     6,   104,   172,   317,   231,   233,   195,   336,
+     336,   194,   195,   195,   255,   275,   226,   275,   275,   118,
+     109,   195,   276,   250,   269,   195,   195,     4,   214,   195,
+      99,    78,    78,    78,    99,   312,     3,   126,   327,   195,
+     195,   198,   195,   195,   195,   242,   195,   195,   105,   289,
+     288,   288,   269,   195,   195,   118,   275,   195,   195,   320,
+     313,   312,   194,   269,     6,   233,   126,   262,   195,    82,
+     131,   336,    51,   261,   195,   269,   162,   163,   164,   290,
+     291,   288,   194,   275,   334,   195,   275,   195,     6,    17,
+     165,   168,   292,   336,   166,   167,   292,   166,   167,   195,
+     116,   292
 };
 
 /* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
@@ -5525,24 +5680,25 @@ static const yytype_int16 yyr1[] =
      260,   261,   261,   262,   262,   263,   263,   264,   265,   265,
      265,   266,   266,   267,   267,   268,   268,   268,   268,   268,
      268,   269,   269,   270,   270,   271,   271,   272,   272,   273,
-     273,   273,   274,   275,   275,   275,   275,   275,   276,   276,
-     276,   276,   276,   276,   276,   276,   276,   276,   276,   277,
-     277,   278,   278,   278,   278,   278,   279,   279,   279,   279,
-     279,   279,   279,   279,   279,   279,   279,   280,   280,   281,
-     281,   281,   281,   282,   282,   282,   282,   283,   283,   284,
-     284,   285,   285,   285,   285,   285,   285,   285,   286,   286,
-     286,   286,   287,   287,   288,   288,   289,   289,   289,   290,
-     290,   290,   291,   291,   291,   291,   291,   292,   293,   294,
-     294,   294,   294,   294,   294,   295,   295,   295,   295,   295,
-     295,   296,   296,   297,   298,   299,   300,   300,   300,   300,
-     301,   301,   301,   301,   301,   301,   301,   302,   303,   303,
-     304,   304,   305,   306,   307,   308,   308,   308,   309,   310,
-     310,   311,   311,   312,   312,   313,   313,   314,   315,   316,
-     316,   317,   317,   318,   318,   319,   319,   320,   320,   321,
-     321,   322,   322,   323,   323,   324,   324,   325,   325,   325,
-     325,   326,   326,   326,   327,   327,   328,   329,   329,   330,
-     331,   331,   331,   332,   332,   332,   332,   332,   332,   332,
-     332,   332,   332,   333,   334,   334,   335,   335
+     273,   273,   274,   275,   275,   275,   275,   275,   275,   276,
+     276,   276,   276,   276,   276,   276,   276,   276,   276,   276,
+     277,   277,   278,   278,   278,   278,   278,   279,   279,   279,
+     279,   279,   279,   279,   279,   279,   279,   279,   280,   280,
+     281,   281,   281,   282,   282,   282,   282,   283,   283,   283,
+     283,   284,   284,   285,   285,   286,   286,   286,   286,   286,
+     286,   286,   287,   287,   287,   287,   288,   288,   289,   289,
+     290,   290,   290,   291,   291,   291,   292,   292,   292,   292,
+     292,   293,   294,   295,   295,   295,   295,   295,   295,   296,
+     296,   296,   296,   296,   296,   297,   297,   298,   299,   300,
+     301,   301,   301,   301,   302,   302,   302,   302,   302,   302,
+     302,   303,   304,   304,   305,   305,   306,   307,   308,   309,
+     309,   309,   310,   311,   311,   312,   312,   313,   313,   314,
+     314,   315,   316,   317,   317,   318,   318,   319,   319,   320,
+     320,   321,   321,   322,   322,   323,   323,   324,   324,   325,
+     325,   326,   326,   326,   326,   327,   327,   327,   328,   328,
+     329,   330,   330,   331,   332,   332,   332,   333,   333,   333,
+     333,   333,   333,   333,   333,   333,   333,   334,   335,   335,
+     336,   336
 };
 
 /* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
@@ -5566,24 +5722,25 @@ static const yytype_int8 yyr2[] =
        0,     2,     0,     3,     0,     1,     3,     3,     1,     1,
        0,     0,     2,     2,     0,     2,     2,     4,     2,     4,
        0,     1,     3,     1,     0,     1,     3,     1,     6,     1,
-       2,     2,     2,     1,     1,     1,     1,     1,     3,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     3,     1,
-       1,     2,     2,     2,     3,     4,     1,     3,     3,     3,
-       3,     3,     3,     3,     4,     3,     3,     3,     3,     5,
-       6,     5,     6,     4,     6,     3,     5,     4,     5,     4,
-       5,     3,     3,     3,     3,     3,     3,     3,     4,     6,
-       6,     8,     6,     0,     3,     0,     2,     5,     0,     1,
-       1,     1,     2,     2,     2,     2,     1,     6,     6,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     4,     4,     5,     1,     3,     1,     3,
-       1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     2,     2,     3,     2,     1,     1,
-       3,     1,     1,     1,     4,     1,     3,     2,     1,     1,
-       3,     1,     0,     1,     5,     1,     0,     2,     1,     1,
-       0,     1,     0,     1,     2,     3,     5,     1,     3,     1,
-       2,     2,     1,     0,     1,     0,     2,     1,     3,     3,
-       4,     6,     8,     1,     2,     1,     2,     1,     2,     1,
-       1,     1,     0,     1,     1,     0,     1,     3
+       2,     2,     2,     1,     1,     1,     1,     1,     1,     3,
+       1,     1,     1,     1,     1,     1,     1,     1,     1,     3,
+       1,     1,     2,     2,     2,     3,     4,     1,     3,     3,
+       3,     3,     3,     3,     3,     4,     3,     3,     3,     3,
+       2,     2,     2,     5,     6,     5,     6,     4,     6,     3,
+       5,     4,     5,     4,     5,     3,     3,     3,     3,     3,
+       3,     3,     4,     6,     6,     8,     6,     0,     3,     0,
+       2,     5,     0,     1,     1,     1,     2,     2,     2,     2,
+       1,     6,     6,     1,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     4,     4,     5,
+       1,     3,     1,     3,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     2,     2,
+       3,     2,     1,     1,     3,     1,     1,     1,     4,     1,
+       3,     2,     1,     1,     3,     1,     0,     1,     5,     1,
+       0,     2,     1,     1,     0,     1,     0,     1,     2,     3,
+       5,     1,     3,     1,     2,     2,     1,     0,     1,     0,
+       2,     1,     3,     3,     4,     6,     8,     1,     2,     1,
+       2,     1,     2,     1,     1,     1,     0,     1,     1,     0,
+       1,     3
 };
 
 
@@ -6149,25 +6306,25 @@ yydestruct (const char *yymsg,
     case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
 #line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6153 "bison_parser.cpp"
+#line 6310 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_STRING: /* STRING  */
 #line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6159 "bison_parser.cpp"
+#line 6316 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
 #line 186 "bison_parser.y"
             { }
-#line 6165 "bison_parser.cpp"
+#line 6322 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_INTVAL: /* INTVAL  */
 #line 186 "bison_parser.y"
             { }
-#line 6171 "bison_parser.cpp"
+#line 6328 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement_list: /* statement_list  */
@@ -6180,19 +6337,19 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 6184 "bison_parser.cpp"
+#line 6341 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement: /* statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 6190 "bison_parser.cpp"
+#line 6347 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 6196 "bison_parser.cpp"
+#line 6353 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_hints: /* opt_hints  */
@@ -6205,7 +6362,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6209 "bison_parser.cpp"
+#line 6366 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint_list: /* hint_list  */
@@ -6218,67 +6375,67 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6222 "bison_parser.cpp"
+#line 6379 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint: /* hint  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6228 "bison_parser.cpp"
+#line 6385 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
-#line 6234 "bison_parser.cpp"
+#line 6391 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
-#line 6240 "bison_parser.cpp"
+#line 6397 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
 #line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6246 "bison_parser.cpp"
+#line 6403 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
-#line 6252 "bison_parser.cpp"
+#line 6409 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
-#line 6258 "bison_parser.cpp"
+#line 6415 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_type: /* file_type  */
 #line 186 "bison_parser.y"
             { }
-#line 6264 "bison_parser.cpp"
+#line 6421 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_path: /* file_path  */
 #line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6270 "bison_parser.cpp"
+#line 6427 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 6276 "bison_parser.cpp"
+#line 6433 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 6282 "bison_parser.cpp"
+#line 6439 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
@@ -6287,31 +6444,31 @@ yydestruct (const char *yymsg,
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 6291 "bison_parser.cpp"
+#line 6448 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
-#line 6297 "bison_parser.cpp"
+#line 6454 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
-#line 6303 "bison_parser.cpp"
+#line 6460 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
-#line 6309 "bison_parser.cpp"
+#line 6466 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
 #line 186 "bison_parser.y"
             { }
-#line 6315 "bison_parser.cpp"
+#line 6472 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
@@ -6324,115 +6481,115 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 6328 "bison_parser.cpp"
+#line 6485 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
-#line 6334 "bison_parser.cpp"
+#line 6491 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
-#line 6340 "bison_parser.cpp"
+#line 6497 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_type: /* column_type  */
 #line 186 "bison_parser.y"
             { }
-#line 6346 "bison_parser.cpp"
+#line 6503 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
 #line 186 "bison_parser.y"
             { }
-#line 6352 "bison_parser.cpp"
+#line 6509 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
-#line 6358 "bison_parser.cpp"
+#line 6515 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).column_constraints_t)); }
-#line 6364 "bison_parser.cpp"
+#line 6521 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).column_constraints_t)); }
-#line 6370 "bison_parser.cpp"
+#line 6527 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
 #line 186 "bison_parser.y"
             { }
-#line 6376 "bison_parser.cpp"
+#line 6533 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
-#line 6382 "bison_parser.cpp"
+#line 6539 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
-#line 6388 "bison_parser.cpp"
+#line 6545 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
-#line 6394 "bison_parser.cpp"
+#line 6551 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
 #line 186 "bison_parser.y"
             { }
-#line 6400 "bison_parser.cpp"
+#line 6557 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
-#line 6406 "bison_parser.cpp"
+#line 6563 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
-#line 6412 "bison_parser.cpp"
+#line 6569 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
-#line 6418 "bison_parser.cpp"
+#line 6575 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 6424 "bison_parser.cpp"
+#line 6581 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 6430 "bison_parser.cpp"
+#line 6587 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
-#line 6436 "bison_parser.cpp"
+#line 6593 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
@@ -6445,13 +6602,13 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 6449 "bison_parser.cpp"
+#line 6606 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
-#line 6455 "bison_parser.cpp"
+#line 6612 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
@@ -6464,73 +6621,73 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 6468 "bison_parser.cpp"
+#line 6625 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).update_t)); }
-#line 6474 "bison_parser.cpp"
+#line 6631 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6480 "bison_parser.cpp"
+#line 6637 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6486 "bison_parser.cpp"
+#line 6643 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6492 "bison_parser.cpp"
+#line 6649 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6498 "bison_parser.cpp"
+#line 6655 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6504 "bison_parser.cpp"
+#line 6661 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 6510 "bison_parser.cpp"
+#line 6667 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 6516 "bison_parser.cpp"
+#line 6673 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
 #line 186 "bison_parser.y"
             { }
-#line 6522 "bison_parser.cpp"
+#line 6679 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6528 "bison_parser.cpp"
+#line 6685 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
 #line 186 "bison_parser.y"
             { }
-#line 6534 "bison_parser.cpp"
+#line 6691 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
@@ -6543,37 +6700,37 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6547 "bison_parser.cpp"
+#line 6704 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6553 "bison_parser.cpp"
+#line 6710 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6559 "bison_parser.cpp"
+#line 6716 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6565 "bison_parser.cpp"
+#line 6722 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
-#line 6571 "bison_parser.cpp"
+#line 6728 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6577 "bison_parser.cpp"
+#line 6734 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
@@ -6586,7 +6743,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 6590 "bison_parser.cpp"
+#line 6747 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
@@ -6599,37 +6756,37 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 6603 "bison_parser.cpp"
+#line 6760 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
-#line 6609 "bison_parser.cpp"
+#line 6766 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
 #line 186 "bison_parser.y"
             { }
-#line 6615 "bison_parser.cpp"
+#line 6772 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
 #line 186 "bison_parser.y"
             { }
-#line 6621 "bison_parser.cpp"
+#line 6778 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 6627 "bison_parser.cpp"
+#line 6784 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 6633 "bison_parser.cpp"
+#line 6790 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
@@ -6642,7 +6799,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6646 "bison_parser.cpp"
+#line 6803 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
@@ -6655,7 +6812,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6659 "bison_parser.cpp"
+#line 6816 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
@@ -6668,103 +6825,109 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6672 "bison_parser.cpp"
+#line 6829 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6678 "bison_parser.cpp"
+#line 6835 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6684 "bison_parser.cpp"
+#line 6841 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6690 "bison_parser.cpp"
+#line 6847 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6696 "bison_parser.cpp"
+#line 6853 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6702 "bison_parser.cpp"
+#line 6859 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6708 "bison_parser.cpp"
+#line 6865 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6714 "bison_parser.cpp"
+#line 6871 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6720 "bison_parser.cpp"
+#line 6877 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6726 "bison_parser.cpp"
+#line 6883 "bison_parser.cpp"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 212 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 6889 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6732 "bison_parser.cpp"
+#line 6895 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6738 "bison_parser.cpp"
+#line 6901 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6744 "bison_parser.cpp"
+#line 6907 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6750 "bison_parser.cpp"
+#line 6913 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6756 "bison_parser.cpp"
+#line 6919 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6762 "bison_parser.cpp"
+#line 6925 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
-#line 6768 "bison_parser.cpp"
+#line 6931 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
@@ -6777,151 +6940,151 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6781 "bison_parser.cpp"
+#line 6944 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
-#line 6787 "bison_parser.cpp"
+#line 6950 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
 #line 186 "bison_parser.y"
             { }
-#line 6793 "bison_parser.cpp"
+#line 6956 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
-#line 6799 "bison_parser.cpp"
+#line 6962 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6805 "bison_parser.cpp"
+#line 6968 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6811 "bison_parser.cpp"
+#line 6974 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
 #line 186 "bison_parser.y"
             { }
-#line 6817 "bison_parser.cpp"
+#line 6980 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
 #line 186 "bison_parser.y"
             { }
-#line 6823 "bison_parser.cpp"
+#line 6986 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
 #line 186 "bison_parser.y"
             { }
-#line 6829 "bison_parser.cpp"
+#line 6992 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6835 "bison_parser.cpp"
+#line 6998 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6841 "bison_parser.cpp"
+#line 7004 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6847 "bison_parser.cpp"
+#line 7010 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6853 "bison_parser.cpp"
+#line 7016 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6859 "bison_parser.cpp"
+#line 7022 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6865 "bison_parser.cpp"
+#line 7028 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6871 "bison_parser.cpp"
+#line 7034 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6877 "bison_parser.cpp"
+#line 7040 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6883 "bison_parser.cpp"
+#line 7046 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6889 "bison_parser.cpp"
+#line 7052 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6895 "bison_parser.cpp"
+#line 7058 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6901 "bison_parser.cpp"
+#line 7064 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6907 "bison_parser.cpp"
+#line 7070 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6913 "bison_parser.cpp"
+#line 7076 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6919 "bison_parser.cpp"
+#line 7082 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6925 "bison_parser.cpp"
+#line 7088 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
@@ -6934,19 +7097,19 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 6938 "bison_parser.cpp"
+#line 7101 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6944 "bison_parser.cpp"
+#line 7107 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6950 "bison_parser.cpp"
+#line 7113 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
@@ -6955,37 +7118,37 @@ yydestruct (const char *yymsg,
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 6959 "bison_parser.cpp"
+#line 7122 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
 #line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6965 "bison_parser.cpp"
+#line 7128 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 6971 "bison_parser.cpp"
+#line 7134 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 6977 "bison_parser.cpp"
+#line 7140 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 6983 "bison_parser.cpp"
+#line 7146 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 6989 "bison_parser.cpp"
+#line 7152 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
@@ -6998,7 +7161,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 7002 "bison_parser.cpp"
+#line 7165 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
@@ -7011,25 +7174,25 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 7015 "bison_parser.cpp"
+#line 7178 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).locking_t)); }
-#line 7021 "bison_parser.cpp"
+#line 7184 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
 #line 186 "bison_parser.y"
             { }
-#line 7027 "bison_parser.cpp"
+#line 7190 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
 #line 186 "bison_parser.y"
             { }
-#line 7033 "bison_parser.cpp"
+#line 7196 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
@@ -7042,7 +7205,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 7046 "bison_parser.cpp"
+#line 7209 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
@@ -7055,7 +7218,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 7059 "bison_parser.cpp"
+#line 7222 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
@@ -7068,31 +7231,31 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 7072 "bison_parser.cpp"
+#line 7235 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
-#line 7078 "bison_parser.cpp"
+#line 7241 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 7084 "bison_parser.cpp"
+#line 7247 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
 #line 186 "bison_parser.y"
             { }
-#line 7090 "bison_parser.cpp"
+#line 7253 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
 #line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 7096 "bison_parser.cpp"
+#line 7259 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
@@ -7105,7 +7268,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 7109 "bison_parser.cpp"
+#line 7272 "bison_parser.cpp"
         break;
 
       default:
@@ -7213,7 +7376,7 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.string_length = 0;
 }
 
-#line 7217 "bison_parser.cpp"
+#line 7380 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -7424,7 +7587,7 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: statement_list opt_semicolon  */
-#line 351 "bison_parser.y"
+#line 352 "bison_parser.y"
                                      {
   for (SQLStatement* stmt : *(yyvsp[-1].stmt_vec)) {
     // Transfers ownership of the statement.
@@ -7442,236 +7605,236 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 7446 "bison_parser.cpp"
+#line 7609 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 370 "bison_parser.y"
+#line 371 "bison_parser.y"
                            {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 7457 "bison_parser.cpp"
+#line 7620 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
-#line 376 "bison_parser.y"
+#line 377 "bison_parser.y"
                                {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 7468 "bison_parser.cpp"
+#line 7631 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
-#line 383 "bison_parser.y"
+#line 384 "bison_parser.y"
                                         {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 7477 "bison_parser.cpp"
+#line 7640 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
-#line 387 "bison_parser.y"
+#line 388 "bison_parser.y"
                                  {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 7486 "bison_parser.cpp"
+#line 7649 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
-#line 391 "bison_parser.y"
+#line 392 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 7492 "bison_parser.cpp"
+#line 7655 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
-#line 392 "bison_parser.y"
+#line 393 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 7498 "bison_parser.cpp"
+#line 7661 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
-#line 393 "bison_parser.y"
+#line 394 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 7504 "bison_parser.cpp"
+#line 7667 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
-#line 395 "bison_parser.y"
+#line 396 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 7510 "bison_parser.cpp"
+#line 7673 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
-#line 396 "bison_parser.y"
+#line 397 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 7516 "bison_parser.cpp"
+#line 7679 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
-#line 397 "bison_parser.y"
+#line 398 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 7522 "bison_parser.cpp"
+#line 7685 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
-#line 398 "bison_parser.y"
+#line 399 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 7528 "bison_parser.cpp"
+#line 7691 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
-#line 399 "bison_parser.y"
+#line 400 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 7534 "bison_parser.cpp"
+#line 7697 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
-#line 400 "bison_parser.y"
+#line 401 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 7540 "bison_parser.cpp"
+#line 7703 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
-#line 401 "bison_parser.y"
+#line 402 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 7546 "bison_parser.cpp"
+#line 7709 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
-#line 402 "bison_parser.y"
+#line 403 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 7552 "bison_parser.cpp"
+#line 7715 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
-#line 403 "bison_parser.y"
+#line 404 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 7558 "bison_parser.cpp"
+#line 7721 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
-#line 404 "bison_parser.y"
+#line 405 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 7564 "bison_parser.cpp"
+#line 7727 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
-#line 410 "bison_parser.y"
+#line 411 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 7570 "bison_parser.cpp"
+#line 7733 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
-#line 411 "bison_parser.y"
+#line 412 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 7576 "bison_parser.cpp"
+#line 7739 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
-#line 413 "bison_parser.y"
+#line 414 "bison_parser.y"
                  {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 7585 "bison_parser.cpp"
+#line 7748 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
-#line 417 "bison_parser.y"
+#line 418 "bison_parser.y"
                      {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 7594 "bison_parser.cpp"
+#line 7757 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
-#line 422 "bison_parser.y"
+#line 423 "bison_parser.y"
                   {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 7603 "bison_parser.cpp"
+#line 7766 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
-#line 426 "bison_parser.y"
+#line 427 "bison_parser.y"
                                            {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 7613 "bison_parser.cpp"
+#line 7776 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
-#line 436 "bison_parser.y"
+#line 437 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 7619 "bison_parser.cpp"
+#line 7782 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
-#line 437 "bison_parser.y"
+#line 438 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 7625 "bison_parser.cpp"
+#line 7788 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
-#line 438 "bison_parser.y"
+#line 439 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 7631 "bison_parser.cpp"
+#line 7794 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
-#line 446 "bison_parser.y"
+#line 447 "bison_parser.y"
                                                                  {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 7641 "bison_parser.cpp"
+#line 7804 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
-#line 454 "bison_parser.y"
+#line 455 "bison_parser.y"
                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 7650 "bison_parser.cpp"
+#line 7813 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
-#line 458 "bison_parser.y"
+#line 459 "bison_parser.y"
                                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 7660 "bison_parser.cpp"
+#line 7823 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
-#line 470 "bison_parser.y"
+#line 471 "bison_parser.y"
                                                                         {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 7671 "bison_parser.cpp"
+#line 7834 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
-#line 476 "bison_parser.y"
+#line 477 "bison_parser.y"
                                                                      {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
@@ -7688,11 +7851,11 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 7692 "bison_parser.cpp"
+#line 7855 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
-#line 493 "bison_parser.y"
+#line 494 "bison_parser.y"
                        {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
@@ -7707,35 +7870,35 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 7711 "bison_parser.cpp"
+#line 7874 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
-#line 508 "bison_parser.y"
+#line 509 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 7717 "bison_parser.cpp"
+#line 7880 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
-#line 510 "bison_parser.y"
+#line 511 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 7723 "bison_parser.cpp"
+#line 7886 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
-#line 511 "bison_parser.y"
+#line 512 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 7729 "bison_parser.cpp"
+#line 7892 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
-#line 512 "bison_parser.y"
+#line 513 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 7735 "bison_parser.cpp"
+#line 7898 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
-#line 514 "bison_parser.y"
+#line 515 "bison_parser.y"
                                                                    {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
@@ -7750,20 +7913,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 7754 "bison_parser.cpp"
+#line 7917 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
-#line 528 "bison_parser.y"
+#line 529 "bison_parser.y"
                    {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 7763 "bison_parser.cpp"
+#line 7926 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
-#line 532 "bison_parser.y"
+#line 533 "bison_parser.y"
                                             {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
@@ -7774,20 +7937,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 7778 "bison_parser.cpp"
+#line 7941 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
-#line 542 "bison_parser.y"
+#line 543 "bison_parser.y"
                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 7787 "bison_parser.cpp"
+#line 7950 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
-#line 546 "bison_parser.y"
+#line 547 "bison_parser.y"
                                        {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
@@ -7812,11 +7975,11 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 7816 "bison_parser.cpp"
+#line 7979 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
-#line 570 "bison_parser.y"
+#line 571 "bison_parser.y"
              {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
@@ -7824,11 +7987,11 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 7828 "bison_parser.cpp"
+#line 7991 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
-#line 578 "bison_parser.y"
+#line 579 "bison_parser.y"
                                {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
@@ -7842,17 +8005,17 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 7846 "bison_parser.cpp"
+#line 8009 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
-#line 591 "bison_parser.y"
+#line 592 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 7852 "bison_parser.cpp"
+#line 8015 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
-#line 598 "bison_parser.y"
+#line 599 "bison_parser.y"
                                                                           {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -7868,11 +8031,11 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 7872 "bison_parser.cpp"
+#line 8035 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
-#line 613 "bison_parser.y"
+#line 614 "bison_parser.y"
                                                                 {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -7887,37 +8050,37 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 7891 "bison_parser.cpp"
+#line 8054 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
-#line 633 "bison_parser.y"
+#line 634 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 7897 "bison_parser.cpp"
+#line 8060 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
-#line 634 "bison_parser.y"
+#line 635 "bison_parser.y"
                           {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 7907 "bison_parser.cpp"
+#line 8070 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
-#line 639 "bison_parser.y"
+#line 640 "bison_parser.y"
                       {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 7917 "bison_parser.cpp"
+#line 8080 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
-#line 650 "bison_parser.y"
+#line 651 "bison_parser.y"
                                                                                          {
   if (strcasecmp((yyvsp[-2].sval), "tbl") != 0) {
     free((yyvsp[-4].table_name).schema);
@@ -7934,11 +8097,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-4].table_name).name;
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 7938 "bison_parser.cpp"
+#line 8101 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 666 "bison_parser.y"
+#line 667 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -7951,11 +8114,11 @@ yyreduce:
     YYERROR;
   }
 }
-#line 7955 "bison_parser.cpp"
+#line 8118 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 678 "bison_parser.y"
+#line 679 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -7963,11 +8126,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 7967 "bison_parser.cpp"
+#line 8130 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 685 "bison_parser.y"
+#line 686 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -7976,11 +8139,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 7980 "bison_parser.cpp"
+#line 8143 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 693 "bison_parser.y"
+#line 694 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -7989,53 +8152,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 7993 "bison_parser.cpp"
+#line 8156 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 702 "bison_parser.y"
+#line 703 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 7999 "bison_parser.cpp"
+#line 8162 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 703 "bison_parser.y"
+#line 704 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8005 "bison_parser.cpp"
+#line 8168 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 705 "bison_parser.y"
+#line 706 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 8014 "bison_parser.cpp"
+#line 8177 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 709 "bison_parser.y"
+#line 710 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 8023 "bison_parser.cpp"
+#line 8186 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 714 "bison_parser.y"
+#line 715 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 8029 "bison_parser.cpp"
+#line 8192 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 715 "bison_parser.y"
+#line 716 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 8035 "bison_parser.cpp"
+#line 8198 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 717 "bison_parser.y"
+#line 718 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
@@ -8046,192 +8209,192 @@ yyreduce:
   (yyvsp[0].column_constraints_t)->references = nullptr;
   delete (yyvsp[0].column_constraints_t);
 }
-#line 8050 "bison_parser.cpp"
+#line 8213 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 728 "bison_parser.y"
+#line 729 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 8056 "bison_parser.cpp"
+#line 8219 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 729 "bison_parser.y"
+#line 730 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 8062 "bison_parser.cpp"
+#line 8225 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 730 "bison_parser.y"
+#line 731 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 8068 "bison_parser.cpp"
+#line 8231 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 731 "bison_parser.y"
+#line 732 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 8074 "bison_parser.cpp"
+#line 8237 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 732 "bison_parser.y"
+#line 733 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 8080 "bison_parser.cpp"
+#line 8243 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 733 "bison_parser.y"
+#line 734 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 8086 "bison_parser.cpp"
+#line 8249 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 734 "bison_parser.y"
+#line 735 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 8095 "bison_parser.cpp"
+#line 8258 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 738 "bison_parser.y"
+#line 739 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 8101 "bison_parser.cpp"
+#line 8264 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 739 "bison_parser.y"
+#line 740 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 8107 "bison_parser.cpp"
+#line 8270 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 740 "bison_parser.y"
+#line 741 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 8113 "bison_parser.cpp"
+#line 8276 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 741 "bison_parser.y"
+#line 742 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 8119 "bison_parser.cpp"
+#line 8282 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 742 "bison_parser.y"
+#line 743 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 8125 "bison_parser.cpp"
+#line 8288 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 743 "bison_parser.y"
+#line 744 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 8131 "bison_parser.cpp"
+#line 8294 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 744 "bison_parser.y"
+#line 745 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 8137 "bison_parser.cpp"
+#line 8300 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 745 "bison_parser.y"
+#line 746 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 8143 "bison_parser.cpp"
+#line 8306 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 746 "bison_parser.y"
+#line 747 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 8149 "bison_parser.cpp"
+#line 8312 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 747 "bison_parser.y"
+#line 748 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 8155 "bison_parser.cpp"
+#line 8318 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 748 "bison_parser.y"
+#line 749 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 8161 "bison_parser.cpp"
+#line 8324 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 750 "bison_parser.y"
+#line 751 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 8167 "bison_parser.cpp"
+#line 8330 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 751 "bison_parser.y"
+#line 752 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 8173 "bison_parser.cpp"
+#line 8336 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 753 "bison_parser.y"
+#line 754 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 8179 "bison_parser.cpp"
+#line 8342 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 754 "bison_parser.y"
+#line 755 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 8185 "bison_parser.cpp"
+#line 8348 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 755 "bison_parser.y"
+#line 756 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 8191 "bison_parser.cpp"
+#line 8354 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 757 "bison_parser.y"
+#line 758 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 8197 "bison_parser.cpp"
+#line 8360 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 758 "bison_parser.y"
+#line 759 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 8203 "bison_parser.cpp"
+#line 8366 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 760 "bison_parser.y"
+#line 761 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 8212 "bison_parser.cpp"
+#line 8375 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 764 "bison_parser.y"
+#line 765 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 8221 "bison_parser.cpp"
+#line 8384 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 768 "bison_parser.y"
+#line 769 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 8231 "bison_parser.cpp"
+#line 8394 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 773 "bison_parser.y"
+#line 774 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -8239,159 +8402,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 8243 "bison_parser.cpp"
+#line 8406 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 781 "bison_parser.y"
+#line 782 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 8249 "bison_parser.cpp"
+#line 8412 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 782 "bison_parser.y"
+#line 783 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 8255 "bison_parser.cpp"
+#line 8418 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 783 "bison_parser.y"
+#line 784 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 8261 "bison_parser.cpp"
+#line 8424 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 784 "bison_parser.y"
+#line 785 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 8267 "bison_parser.cpp"
+#line 8430 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 786 "bison_parser.y"
+#line 787 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 8273 "bison_parser.cpp"
+#line 8436 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 787 "bison_parser.y"
+#line 788 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 8279 "bison_parser.cpp"
+#line 8442 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 788 "bison_parser.y"
+#line 789 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 8285 "bison_parser.cpp"
+#line 8448 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 790 "bison_parser.y"
+#line 791 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 8291 "bison_parser.cpp"
+#line 8454 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 798 "bison_parser.y"
+#line 799 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 8302 "bison_parser.cpp"
+#line 8465 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 804 "bison_parser.y"
+#line 805 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 8313 "bison_parser.cpp"
+#line 8476 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 810 "bison_parser.y"
+#line 811 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 8323 "bison_parser.cpp"
+#line 8486 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 816 "bison_parser.y"
+#line 817 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 8333 "bison_parser.cpp"
+#line 8496 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 822 "bison_parser.y"
+#line 823 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 8339 "bison_parser.cpp"
+#line 8502 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 823 "bison_parser.y"
+#line 824 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8345 "bison_parser.cpp"
+#line 8508 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 830 "bison_parser.y"
+#line 831 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 8355 "bison_parser.cpp"
+#line 8518 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 836 "bison_parser.y"
+#line 837 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 8361 "bison_parser.cpp"
+#line 8524 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 838 "bison_parser.y"
+#line 839 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 8370 "bison_parser.cpp"
+#line 8533 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 848 "bison_parser.y"
+#line 849 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 8381 "bison_parser.cpp"
+#line 8544 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 855 "bison_parser.y"
+#line 856 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 8391 "bison_parser.cpp"
+#line 8554 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 866 "bison_parser.y"
+#line 867 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -8399,11 +8562,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 8403 "bison_parser.cpp"
+#line 8566 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 873 "bison_parser.y"
+#line 874 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -8411,80 +8574,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 8415 "bison_parser.cpp"
+#line 8578 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 881 "bison_parser.y"
+#line 882 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 8421 "bison_parser.cpp"
+#line 8584 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 882 "bison_parser.y"
+#line 883 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 8427 "bison_parser.cpp"
+#line 8590 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 889 "bison_parser.y"
+#line 890 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 8438 "bison_parser.cpp"
+#line 8601 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 896 "bison_parser.y"
+#line 897 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 8447 "bison_parser.cpp"
+#line 8610 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 900 "bison_parser.y"
+#line 901 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 8456 "bison_parser.cpp"
+#line 8619 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 905 "bison_parser.y"
+#line 906 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 8466 "bison_parser.cpp"
+#line 8629 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 915 "bison_parser.y"
+#line 916 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 8475 "bison_parser.cpp"
+#line 8638 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 919 "bison_parser.y"
+#line 920 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 8484 "bison_parser.cpp"
+#line 8647 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 923 "bison_parser.y"
+#line 924 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -8496,17 +8659,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 8500 "bison_parser.cpp"
+#line 8663 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 937 "bison_parser.y"
+#line 938 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 8506 "bison_parser.cpp"
+#line 8669 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 938 "bison_parser.y"
+#line 939 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -8515,23 +8678,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 8519 "bison_parser.cpp"
+#line 8682 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 947 "bison_parser.y"
+#line 948 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 8525 "bison_parser.cpp"
+#line 8688 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 948 "bison_parser.y"
+#line 949 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 8531 "bison_parser.cpp"
+#line 8694 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 950 "bison_parser.y"
+#line 951 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -8546,11 +8709,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 8550 "bison_parser.cpp"
+#line 8713 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 964 "bison_parser.y"
+#line 965 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -8562,59 +8725,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 8566 "bison_parser.cpp"
+#line 8729 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 976 "bison_parser.y"
+#line 977 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 8575 "bison_parser.cpp"
+#line 8738 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 981 "bison_parser.y"
+#line 982 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 8584 "bison_parser.cpp"
+#line 8747 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 985 "bison_parser.y"
+#line 986 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 8593 "bison_parser.cpp"
+#line 8756 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 989 "bison_parser.y"
+#line 990 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 8602 "bison_parser.cpp"
+#line 8765 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 994 "bison_parser.y"
+#line 995 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 8608 "bison_parser.cpp"
+#line 8771 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 995 "bison_parser.y"
+#line 996 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8614 "bison_parser.cpp"
+#line 8777 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 997 "bison_parser.y"
+#line 998 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -8624,141 +8787,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 8628 "bison_parser.cpp"
+#line 8791 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1007 "bison_parser.y"
+#line 1008 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 8634 "bison_parser.cpp"
+#line 8797 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1008 "bison_parser.y"
+#line 1009 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8640 "bison_parser.cpp"
+#line 8803 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1012 "bison_parser.y"
+#line 1013 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 8646 "bison_parser.cpp"
+#line 8809 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1013 "bison_parser.y"
+#line 1014 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 8652 "bison_parser.cpp"
+#line 8815 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1015 "bison_parser.y"
+#line 1016 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 8658 "bison_parser.cpp"
+#line 8821 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1017 "bison_parser.y"
+#line 1018 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 8664 "bison_parser.cpp"
+#line 8827 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1018 "bison_parser.y"
+#line 1019 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 8670 "bison_parser.cpp"
+#line 8833 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1020 "bison_parser.y"
+#line 1021 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 8680 "bison_parser.cpp"
+#line 8843 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1025 "bison_parser.y"
+#line 1026 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 8686 "bison_parser.cpp"
+#line 8849 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1027 "bison_parser.y"
+#line 1028 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 8692 "bison_parser.cpp"
+#line 8855 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1028 "bison_parser.y"
+#line 1029 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 8698 "bison_parser.cpp"
+#line 8861 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1030 "bison_parser.y"
+#line 1031 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 8704 "bison_parser.cpp"
+#line 8867 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1031 "bison_parser.y"
+#line 1032 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 8710 "bison_parser.cpp"
+#line 8873 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1033 "bison_parser.y"
+#line 1034 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 8719 "bison_parser.cpp"
+#line 8882 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1037 "bison_parser.y"
+#line 1038 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 8728 "bison_parser.cpp"
+#line 8891 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1042 "bison_parser.y"
+#line 1043 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 8734 "bison_parser.cpp"
+#line 8897 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1044 "bison_parser.y"
+#line 1045 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 8740 "bison_parser.cpp"
+#line 8903 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1045 "bison_parser.y"
+#line 1046 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 8746 "bison_parser.cpp"
+#line 8909 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1046 "bison_parser.y"
+#line 1047 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 8752 "bison_parser.cpp"
+#line 8915 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1048 "bison_parser.y"
+#line 1049 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 8758 "bison_parser.cpp"
+#line 8921 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1049 "bison_parser.y"
+#line 1050 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -8778,115 +8941,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 8782 "bison_parser.cpp"
+#line 8945 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1071 "bison_parser.y"
+#line 1072 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 8788 "bison_parser.cpp"
+#line 8951 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1072 "bison_parser.y"
+#line 1073 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 8794 "bison_parser.cpp"
+#line 8957 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1074 "bison_parser.y"
+#line 1075 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 8800 "bison_parser.cpp"
+#line 8963 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1075 "bison_parser.y"
+#line 1076 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 8806 "bison_parser.cpp"
+#line 8969 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1076 "bison_parser.y"
+#line 1077 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 8812 "bison_parser.cpp"
+#line 8975 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1077 "bison_parser.y"
+#line 1078 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 8818 "bison_parser.cpp"
+#line 8981 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1078 "bison_parser.y"
+#line 1079 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 8824 "bison_parser.cpp"
+#line 8987 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1079 "bison_parser.y"
+#line 1080 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 8830 "bison_parser.cpp"
+#line 8993 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1084 "bison_parser.y"
+#line 1085 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 8839 "bison_parser.cpp"
+#line 9002 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1088 "bison_parser.y"
+#line 1089 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 8848 "bison_parser.cpp"
+#line 9011 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1094 "bison_parser.y"
+#line 1095 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 8854 "bison_parser.cpp"
+#line 9017 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1095 "bison_parser.y"
+#line 1096 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 8860 "bison_parser.cpp"
+#line 9023 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1097 "bison_parser.y"
+#line 1098 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 8869 "bison_parser.cpp"
+#line 9032 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1101 "bison_parser.y"
+#line 1102 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 8878 "bison_parser.cpp"
+#line 9041 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1106 "bison_parser.y"
+#line 1107 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 8886 "bison_parser.cpp"
+#line 9049 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1110 "bison_parser.y"
+#line 1111 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -8895,23 +9058,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 8899 "bison_parser.cpp"
+#line 9062 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1118 "bison_parser.y"
+#line 1119 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 8905 "bison_parser.cpp"
+#line 9068 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1119 "bison_parser.y"
+#line 1120 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 8911 "bison_parser.cpp"
+#line 9074 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1121 "bison_parser.y"
+#line 1122 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -8920,522 +9083,540 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 8924 "bison_parser.cpp"
+#line 9087 "bison_parser.cpp"
     break;
 
-  case 188: /* operand: '(' expr ')'  */
-#line 1132 "bison_parser.y"
+  case 189: /* operand: '(' expr ')'  */
+#line 1133 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 8930 "bison_parser.cpp"
+#line 9093 "bison_parser.cpp"
     break;
 
-  case 198: /* operand: '(' select_no_paren ')'  */
-#line 1134 "bison_parser.y"
+  case 199: /* operand: '(' select_no_paren ')'  */
+#line 1135 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 8938 "bison_parser.cpp"
+#line 9101 "bison_parser.cpp"
     break;
 
-  case 201: /* unary_expr: '-' operand  */
-#line 1140 "bison_parser.y"
+  case 202: /* unary_expr: '-' operand  */
+#line 1141 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 8944 "bison_parser.cpp"
+#line 9107 "bison_parser.cpp"
     break;
 
-  case 202: /* unary_expr: NOT operand  */
-#line 1141 "bison_parser.y"
+  case 203: /* unary_expr: NOT operand  */
+#line 1142 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 8950 "bison_parser.cpp"
+#line 9113 "bison_parser.cpp"
     break;
 
-  case 203: /* unary_expr: operand ISNULL  */
-#line 1142 "bison_parser.y"
+  case 204: /* unary_expr: operand ISNULL  */
+#line 1143 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 8956 "bison_parser.cpp"
+#line 9119 "bison_parser.cpp"
     break;
 
-  case 204: /* unary_expr: operand IS NULL  */
-#line 1143 "bison_parser.y"
+  case 205: /* unary_expr: operand IS NULL  */
+#line 1144 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 8962 "bison_parser.cpp"
+#line 9125 "bison_parser.cpp"
     break;
 
-  case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1144 "bison_parser.y"
+  case 206: /* unary_expr: operand IS NOT NULL  */
+#line 1145 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 8968 "bison_parser.cpp"
+#line 9131 "bison_parser.cpp"
     break;
 
-  case 207: /* binary_expr: operand '-' operand  */
-#line 1146 "bison_parser.y"
+  case 208: /* binary_expr: operand '-' operand  */
+#line 1147 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 8974 "bison_parser.cpp"
+#line 9137 "bison_parser.cpp"
     break;
 
-  case 208: /* binary_expr: operand '+' operand  */
-#line 1147 "bison_parser.y"
+  case 209: /* binary_expr: operand '+' operand  */
+#line 1148 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 8980 "bison_parser.cpp"
+#line 9143 "bison_parser.cpp"
     break;
 
-  case 209: /* binary_expr: operand '/' operand  */
-#line 1148 "bison_parser.y"
+  case 210: /* binary_expr: operand '/' operand  */
+#line 1149 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 8986 "bison_parser.cpp"
+#line 9149 "bison_parser.cpp"
     break;
 
-  case 210: /* binary_expr: operand '*' operand  */
-#line 1149 "bison_parser.y"
+  case 211: /* binary_expr: operand '*' operand  */
+#line 1150 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 8992 "bison_parser.cpp"
+#line 9155 "bison_parser.cpp"
     break;
 
-  case 211: /* binary_expr: operand '%' operand  */
-#line 1150 "bison_parser.y"
+  case 212: /* binary_expr: operand '%' operand  */
+#line 1151 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 8998 "bison_parser.cpp"
+#line 9161 "bison_parser.cpp"
     break;
 
-  case 212: /* binary_expr: operand '^' operand  */
-#line 1151 "bison_parser.y"
+  case 213: /* binary_expr: operand '^' operand  */
+#line 1152 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 9004 "bison_parser.cpp"
+#line 9167 "bison_parser.cpp"
     break;
 
-  case 213: /* binary_expr: operand LIKE operand  */
-#line 1152 "bison_parser.y"
+  case 214: /* binary_expr: operand LIKE operand  */
+#line 1153 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 9010 "bison_parser.cpp"
+#line 9173 "bison_parser.cpp"
     break;
 
-  case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1153 "bison_parser.y"
+  case 215: /* binary_expr: operand NOT LIKE operand  */
+#line 1154 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 9016 "bison_parser.cpp"
+#line 9179 "bison_parser.cpp"
     break;
 
-  case 215: /* binary_expr: operand ILIKE operand  */
-#line 1154 "bison_parser.y"
+  case 216: /* binary_expr: operand ILIKE operand  */
+#line 1155 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 9022 "bison_parser.cpp"
+#line 9185 "bison_parser.cpp"
     break;
 
-  case 216: /* binary_expr: operand CONCAT operand  */
-#line 1155 "bison_parser.y"
+  case 217: /* binary_expr: operand CONCAT operand  */
+#line 1156 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 9028 "bison_parser.cpp"
+#line 9191 "bison_parser.cpp"
     break;
 
-  case 217: /* logic_expr: expr AND expr  */
-#line 1157 "bison_parser.y"
+  case 218: /* logic_expr: expr AND expr  */
+#line 1158 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 9034 "bison_parser.cpp"
+#line 9197 "bison_parser.cpp"
     break;
 
-  case 218: /* logic_expr: expr OR expr  */
-#line 1158 "bison_parser.y"
+  case 219: /* logic_expr: expr OR expr  */
+#line 1159 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 9040 "bison_parser.cpp"
+#line 9203 "bison_parser.cpp"
+    break;
+
+  case 220: /* not_expr: NOT between_expr  */
+#line 1161 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
+#line 9209 "bison_parser.cpp"
+    break;
+
+  case 221: /* not_expr: NOT in_expr  */
+#line 1162 "bison_parser.y"
+              { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
+#line 9215 "bison_parser.cpp"
+    break;
+
+  case 222: /* not_expr: NOT not_expr  */
+#line 1163 "bison_parser.y"
+               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
+#line 9221 "bison_parser.cpp"
     break;
 
-  case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1160 "bison_parser.y"
+  case 223: /* in_expr: operand IN '(' expr_list ')'  */
+#line 1165 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 9046 "bison_parser.cpp"
+#line 9227 "bison_parser.cpp"
     break;
 
-  case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1161 "bison_parser.y"
+  case 224: /* in_expr: operand NOT IN '(' expr_list ')'  */
+#line 1166 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 9052 "bison_parser.cpp"
+#line 9233 "bison_parser.cpp"
     break;
 
-  case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1162 "bison_parser.y"
+  case 225: /* in_expr: operand IN '(' select_no_paren ')'  */
+#line 1167 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 9058 "bison_parser.cpp"
+#line 9239 "bison_parser.cpp"
     break;
 
-  case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1163 "bison_parser.y"
+  case 226: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
+#line 1168 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 9064 "bison_parser.cpp"
+#line 9245 "bison_parser.cpp"
     break;
 
-  case 223: /* case_expr: CASE expr case_list END  */
-#line 1167 "bison_parser.y"
+  case 227: /* case_expr: CASE expr case_list END  */
+#line 1172 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 9070 "bison_parser.cpp"
+#line 9251 "bison_parser.cpp"
     break;
 
-  case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1168 "bison_parser.y"
+  case 228: /* case_expr: CASE expr case_list ELSE expr END  */
+#line 1173 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 9076 "bison_parser.cpp"
+#line 9257 "bison_parser.cpp"
     break;
 
-  case 225: /* case_expr: CASE case_list END  */
-#line 1169 "bison_parser.y"
+  case 229: /* case_expr: CASE case_list END  */
+#line 1174 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 9082 "bison_parser.cpp"
+#line 9263 "bison_parser.cpp"
     break;
 
-  case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1170 "bison_parser.y"
+  case 230: /* case_expr: CASE case_list ELSE expr END  */
+#line 1175 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 9088 "bison_parser.cpp"
+#line 9269 "bison_parser.cpp"
     break;
 
-  case 227: /* case_list: WHEN expr THEN expr  */
-#line 1172 "bison_parser.y"
+  case 231: /* case_list: WHEN expr THEN expr  */
+#line 1177 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 9094 "bison_parser.cpp"
+#line 9275 "bison_parser.cpp"
     break;
 
-  case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1173 "bison_parser.y"
+  case 232: /* case_list: case_list WHEN expr THEN expr  */
+#line 1178 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 9100 "bison_parser.cpp"
+#line 9281 "bison_parser.cpp"
     break;
 
-  case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1175 "bison_parser.y"
+  case 233: /* exists_expr: EXISTS '(' select_no_paren ')'  */
+#line 1180 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 9106 "bison_parser.cpp"
+#line 9287 "bison_parser.cpp"
     break;
 
-  case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1176 "bison_parser.y"
+  case 234: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
+#line 1181 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 9112 "bison_parser.cpp"
+#line 9293 "bison_parser.cpp"
     break;
 
-  case 231: /* comp_expr: operand '=' operand  */
-#line 1178 "bison_parser.y"
+  case 235: /* comp_expr: operand '=' operand  */
+#line 1183 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 9118 "bison_parser.cpp"
+#line 9299 "bison_parser.cpp"
     break;
 
-  case 232: /* comp_expr: operand EQUALS operand  */
-#line 1179 "bison_parser.y"
+  case 236: /* comp_expr: operand EQUALS operand  */
+#line 1184 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 9124 "bison_parser.cpp"
+#line 9305 "bison_parser.cpp"
     break;
 
-  case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1180 "bison_parser.y"
+  case 237: /* comp_expr: operand NOTEQUALS operand  */
+#line 1185 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 9130 "bison_parser.cpp"
+#line 9311 "bison_parser.cpp"
     break;
 
-  case 234: /* comp_expr: operand '<' operand  */
-#line 1181 "bison_parser.y"
+  case 238: /* comp_expr: operand '<' operand  */
+#line 1186 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 9136 "bison_parser.cpp"
+#line 9317 "bison_parser.cpp"
     break;
 
-  case 235: /* comp_expr: operand '>' operand  */
-#line 1182 "bison_parser.y"
+  case 239: /* comp_expr: operand '>' operand  */
+#line 1187 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 9142 "bison_parser.cpp"
+#line 9323 "bison_parser.cpp"
     break;
 
-  case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1183 "bison_parser.y"
+  case 240: /* comp_expr: operand LESSEQ operand  */
+#line 1188 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 9148 "bison_parser.cpp"
+#line 9329 "bison_parser.cpp"
     break;
 
-  case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1184 "bison_parser.y"
+  case 241: /* comp_expr: operand GREATEREQ operand  */
+#line 1189 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 9154 "bison_parser.cpp"
+#line 9335 "bison_parser.cpp"
     break;
 
-  case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1188 "bison_parser.y"
+  case 242: /* function_expr: IDENTIFIER '(' ')' opt_window  */
+#line 1193 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 9160 "bison_parser.cpp"
+#line 9341 "bison_parser.cpp"
     break;
 
-  case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1189 "bison_parser.y"
+  case 243: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1194 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 9166 "bison_parser.cpp"
+#line 9347 "bison_parser.cpp"
     break;
 
-  case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1190 "bison_parser.y"
+  case 244: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
+#line 1195 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 9172 "bison_parser.cpp"
+#line 9353 "bison_parser.cpp"
     break;
 
-  case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1191 "bison_parser.y"
+  case 245: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1196 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 9178 "bison_parser.cpp"
+#line 9359 "bison_parser.cpp"
     break;
 
-  case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1195 "bison_parser.y"
+  case 246: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
+#line 1200 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 9184 "bison_parser.cpp"
+#line 9365 "bison_parser.cpp"
     break;
 
-  case 243: /* opt_window: %empty  */
-#line 1196 "bison_parser.y"
+  case 247: /* opt_window: %empty  */
+#line 1201 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 9190 "bison_parser.cpp"
+#line 9371 "bison_parser.cpp"
     break;
 
-  case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1198 "bison_parser.y"
+  case 248: /* opt_partition: PARTITION BY expr_list  */
+#line 1203 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 9196 "bison_parser.cpp"
+#line 9377 "bison_parser.cpp"
     break;
 
-  case 245: /* opt_partition: %empty  */
-#line 1199 "bison_parser.y"
+  case 249: /* opt_partition: %empty  */
+#line 1204 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 9202 "bison_parser.cpp"
+#line 9383 "bison_parser.cpp"
     break;
 
-  case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1204 "bison_parser.y"
+  case 250: /* opt_frame_clause: frame_type frame_bound  */
+#line 1209 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 9208 "bison_parser.cpp"
+#line 9389 "bison_parser.cpp"
     break;
 
-  case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1205 "bison_parser.y"
+  case 251: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
+#line 1210 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 9214 "bison_parser.cpp"
+#line 9395 "bison_parser.cpp"
     break;
 
-  case 248: /* opt_frame_clause: %empty  */
-#line 1206 "bison_parser.y"
+  case 252: /* opt_frame_clause: %empty  */
+#line 1211 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 9222 "bison_parser.cpp"
+#line 9403 "bison_parser.cpp"
     break;
 
-  case 249: /* frame_type: RANGE  */
-#line 1210 "bison_parser.y"
+  case 253: /* frame_type: RANGE  */
+#line 1215 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 9228 "bison_parser.cpp"
+#line 9409 "bison_parser.cpp"
     break;
 
-  case 250: /* frame_type: ROWS  */
-#line 1211 "bison_parser.y"
+  case 254: /* frame_type: ROWS  */
+#line 1216 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 9234 "bison_parser.cpp"
+#line 9415 "bison_parser.cpp"
     break;
 
-  case 251: /* frame_type: GROUPS  */
-#line 1212 "bison_parser.y"
+  case 255: /* frame_type: GROUPS  */
+#line 1217 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 9240 "bison_parser.cpp"
+#line 9421 "bison_parser.cpp"
     break;
 
-  case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1214 "bison_parser.y"
+  case 256: /* frame_bound: UNBOUNDED PRECEDING  */
+#line 1219 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 9246 "bison_parser.cpp"
+#line 9427 "bison_parser.cpp"
     break;
 
-  case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1215 "bison_parser.y"
+  case 257: /* frame_bound: INTVAL PRECEDING  */
+#line 1220 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 9252 "bison_parser.cpp"
+#line 9433 "bison_parser.cpp"
     break;
 
-  case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1216 "bison_parser.y"
+  case 258: /* frame_bound: UNBOUNDED FOLLOWING  */
+#line 1221 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 9258 "bison_parser.cpp"
+#line 9439 "bison_parser.cpp"
     break;
 
-  case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1217 "bison_parser.y"
+  case 259: /* frame_bound: INTVAL FOLLOWING  */
+#line 1222 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 9264 "bison_parser.cpp"
+#line 9445 "bison_parser.cpp"
     break;
 
-  case 256: /* frame_bound: CURRENT_ROW  */
-#line 1218 "bison_parser.y"
+  case 260: /* frame_bound: CURRENT_ROW  */
+#line 1223 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 9270 "bison_parser.cpp"
+#line 9451 "bison_parser.cpp"
     break;
 
-  case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1220 "bison_parser.y"
+  case 261: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
+#line 1225 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 9276 "bison_parser.cpp"
+#line 9457 "bison_parser.cpp"
     break;
 
-  case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1222 "bison_parser.y"
+  case 262: /* cast_expr: CAST '(' expr AS column_type ')'  */
+#line 1227 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 9282 "bison_parser.cpp"
+#line 9463 "bison_parser.cpp"
     break;
 
-  case 259: /* datetime_field: SECOND  */
-#line 1224 "bison_parser.y"
+  case 263: /* datetime_field: SECOND  */
+#line 1229 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 9288 "bison_parser.cpp"
+#line 9469 "bison_parser.cpp"
     break;
 
-  case 260: /* datetime_field: MINUTE  */
-#line 1225 "bison_parser.y"
+  case 264: /* datetime_field: MINUTE  */
+#line 1230 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 9294 "bison_parser.cpp"
+#line 9475 "bison_parser.cpp"
     break;
 
-  case 261: /* datetime_field: HOUR  */
-#line 1226 "bison_parser.y"
+  case 265: /* datetime_field: HOUR  */
+#line 1231 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 9300 "bison_parser.cpp"
+#line 9481 "bison_parser.cpp"
     break;
 
-  case 262: /* datetime_field: DAY  */
-#line 1227 "bison_parser.y"
+  case 266: /* datetime_field: DAY  */
+#line 1232 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 9306 "bison_parser.cpp"
+#line 9487 "bison_parser.cpp"
     break;
 
-  case 263: /* datetime_field: MONTH  */
-#line 1228 "bison_parser.y"
+  case 267: /* datetime_field: MONTH  */
+#line 1233 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 9312 "bison_parser.cpp"
+#line 9493 "bison_parser.cpp"
     break;
 
-  case 264: /* datetime_field: YEAR  */
-#line 1229 "bison_parser.y"
+  case 268: /* datetime_field: YEAR  */
+#line 1234 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 9318 "bison_parser.cpp"
+#line 9499 "bison_parser.cpp"
     break;
 
-  case 265: /* datetime_field_plural: SECONDS  */
-#line 1231 "bison_parser.y"
+  case 269: /* datetime_field_plural: SECONDS  */
+#line 1236 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 9324 "bison_parser.cpp"
+#line 9505 "bison_parser.cpp"
     break;
 
-  case 266: /* datetime_field_plural: MINUTES  */
-#line 1232 "bison_parser.y"
+  case 270: /* datetime_field_plural: MINUTES  */
+#line 1237 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 9330 "bison_parser.cpp"
+#line 9511 "bison_parser.cpp"
     break;
 
-  case 267: /* datetime_field_plural: HOURS  */
-#line 1233 "bison_parser.y"
+  case 271: /* datetime_field_plural: HOURS  */
+#line 1238 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 9336 "bison_parser.cpp"
+#line 9517 "bison_parser.cpp"
     break;
 
-  case 268: /* datetime_field_plural: DAYS  */
-#line 1234 "bison_parser.y"
+  case 272: /* datetime_field_plural: DAYS  */
+#line 1239 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 9342 "bison_parser.cpp"
+#line 9523 "bison_parser.cpp"
     break;
 
-  case 269: /* datetime_field_plural: MONTHS  */
-#line 1235 "bison_parser.y"
+  case 273: /* datetime_field_plural: MONTHS  */
+#line 1240 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 9348 "bison_parser.cpp"
+#line 9529 "bison_parser.cpp"
     break;
 
-  case 270: /* datetime_field_plural: YEARS  */
-#line 1236 "bison_parser.y"
+  case 274: /* datetime_field_plural: YEARS  */
+#line 1241 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 9354 "bison_parser.cpp"
+#line 9535 "bison_parser.cpp"
     break;
 
-  case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1240 "bison_parser.y"
+  case 277: /* array_expr: ARRAY '[' expr_list ']'  */
+#line 1245 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 9360 "bison_parser.cpp"
+#line 9541 "bison_parser.cpp"
     break;
 
-  case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1242 "bison_parser.y"
+  case 278: /* array_index: operand '[' int_literal ']'  */
+#line 1247 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 9369 "bison_parser.cpp"
+#line 9550 "bison_parser.cpp"
     break;
 
-  case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1247 "bison_parser.y"
+  case 279: /* between_expr: operand BETWEEN operand AND operand  */
+#line 1252 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 9375 "bison_parser.cpp"
+#line 9556 "bison_parser.cpp"
     break;
 
-  case 276: /* column_name: IDENTIFIER  */
-#line 1249 "bison_parser.y"
+  case 280: /* column_name: IDENTIFIER  */
+#line 1254 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 9381 "bison_parser.cpp"
+#line 9562 "bison_parser.cpp"
     break;
 
-  case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1250 "bison_parser.y"
+  case 281: /* column_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1255 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 9387 "bison_parser.cpp"
+#line 9568 "bison_parser.cpp"
     break;
 
-  case 278: /* column_name: '*'  */
-#line 1251 "bison_parser.y"
+  case 282: /* column_name: '*'  */
+#line 1256 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 9393 "bison_parser.cpp"
+#line 9574 "bison_parser.cpp"
     break;
 
-  case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1252 "bison_parser.y"
+  case 283: /* column_name: IDENTIFIER '.' '*'  */
+#line 1257 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 9399 "bison_parser.cpp"
+#line 9580 "bison_parser.cpp"
     break;
 
-  case 287: /* string_literal: STRING  */
-#line 1256 "bison_parser.y"
+  case 291: /* string_literal: STRING  */
+#line 1261 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 9405 "bison_parser.cpp"
+#line 9586 "bison_parser.cpp"
     break;
 
-  case 288: /* bool_literal: TRUE  */
-#line 1258 "bison_parser.y"
+  case 292: /* bool_literal: TRUE  */
+#line 1263 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 9411 "bison_parser.cpp"
+#line 9592 "bison_parser.cpp"
     break;
 
-  case 289: /* bool_literal: FALSE  */
-#line 1259 "bison_parser.y"
+  case 293: /* bool_literal: FALSE  */
+#line 1264 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 9417 "bison_parser.cpp"
+#line 9598 "bison_parser.cpp"
     break;
 
-  case 290: /* num_literal: FLOATVAL  */
-#line 1261 "bison_parser.y"
+  case 294: /* num_literal: FLOATVAL  */
+#line 1266 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 9423 "bison_parser.cpp"
+#line 9604 "bison_parser.cpp"
     break;
 
-  case 292: /* int_literal: INTVAL  */
-#line 1264 "bison_parser.y"
+  case 296: /* int_literal: INTVAL  */
+#line 1269 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 9429 "bison_parser.cpp"
+#line 9610 "bison_parser.cpp"
     break;
 
-  case 293: /* null_literal: NULL  */
-#line 1266 "bison_parser.y"
+  case 297: /* null_literal: NULL  */
+#line 1271 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 9435 "bison_parser.cpp"
+#line 9616 "bison_parser.cpp"
     break;
 
-  case 294: /* date_literal: DATE STRING  */
-#line 1268 "bison_parser.y"
+  case 298: /* date_literal: DATE STRING  */
+#line 1273 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -9446,17 +9627,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 9450 "bison_parser.cpp"
+#line 9631 "bison_parser.cpp"
     break;
 
-  case 295: /* interval_literal: INTVAL duration_field  */
-#line 1279 "bison_parser.y"
+  case 299: /* interval_literal: INTVAL duration_field  */
+#line 1284 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 9456 "bison_parser.cpp"
+#line 9637 "bison_parser.cpp"
     break;
 
-  case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1280 "bison_parser.y"
+  case 300: /* interval_literal: INTERVAL STRING datetime_field  */
+#line 1285 "bison_parser.y"
                                  {
   long long duration{0};
   int chars_parsed{0};
@@ -9470,11 +9651,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 9474 "bison_parser.cpp"
+#line 9655 "bison_parser.cpp"
     break;
 
-  case 297: /* interval_literal: INTERVAL STRING  */
-#line 1293 "bison_parser.y"
+  case 301: /* interval_literal: INTERVAL STRING  */
+#line 1298 "bison_parser.y"
                   {
   long long duration{0};
   int chars_parsed{0};
@@ -9508,61 +9689,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 9512 "bison_parser.cpp"
+#line 9693 "bison_parser.cpp"
     break;
 
-  case 298: /* param_expr: '?'  */
-#line 1327 "bison_parser.y"
+  case 302: /* param_expr: '?'  */
+#line 1332 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 9522 "bison_parser.cpp"
+#line 9703 "bison_parser.cpp"
     break;
 
-  case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1336 "bison_parser.y"
+  case 304: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
+#line 1341 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 9533 "bison_parser.cpp"
+#line 9714 "bison_parser.cpp"
     break;
 
-  case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1345 "bison_parser.y"
+  case 308: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
+#line 1350 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 9544 "bison_parser.cpp"
+#line 9725 "bison_parser.cpp"
     break;
 
-  case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1352 "bison_parser.y"
+  case 309: /* table_ref_commalist: table_ref_atomic  */
+#line 1357 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 9553 "bison_parser.cpp"
+#line 9734 "bison_parser.cpp"
     break;
 
-  case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1356 "bison_parser.y"
+  case 310: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
+#line 1361 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 9562 "bison_parser.cpp"
+#line 9743 "bison_parser.cpp"
     break;
 
-  case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1361 "bison_parser.y"
+  case 311: /* table_ref_name: table_name opt_table_alias  */
+#line 1366 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -9570,215 +9751,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 9574 "bison_parser.cpp"
+#line 9755 "bison_parser.cpp"
     break;
 
-  case 308: /* table_ref_name_no_alias: table_name  */
-#line 1369 "bison_parser.y"
+  case 312: /* table_ref_name_no_alias: table_name  */
+#line 1374 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 9584 "bison_parser.cpp"
+#line 9765 "bison_parser.cpp"
     break;
 
-  case 309: /* table_name: IDENTIFIER  */
-#line 1375 "bison_parser.y"
+  case 313: /* table_name: IDENTIFIER  */
+#line 1380 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 9593 "bison_parser.cpp"
+#line 9774 "bison_parser.cpp"
     break;
 
-  case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1379 "bison_parser.y"
+  case 314: /* table_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1384 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 9602 "bison_parser.cpp"
+#line 9783 "bison_parser.cpp"
     break;
 
-  case 311: /* opt_index_name: IDENTIFIER  */
-#line 1384 "bison_parser.y"
+  case 315: /* opt_index_name: IDENTIFIER  */
+#line 1389 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 9608 "bison_parser.cpp"
+#line 9789 "bison_parser.cpp"
     break;
 
-  case 312: /* opt_index_name: %empty  */
-#line 1385 "bison_parser.y"
+  case 316: /* opt_index_name: %empty  */
+#line 1390 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 9614 "bison_parser.cpp"
+#line 9795 "bison_parser.cpp"
     break;
 
-  case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1387 "bison_parser.y"
+  case 318: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
+#line 1392 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 9620 "bison_parser.cpp"
+#line 9801 "bison_parser.cpp"
     break;
 
-  case 316: /* opt_table_alias: %empty  */
-#line 1389 "bison_parser.y"
+  case 320: /* opt_table_alias: %empty  */
+#line 1394 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 9626 "bison_parser.cpp"
+#line 9807 "bison_parser.cpp"
     break;
 
-  case 317: /* alias: AS IDENTIFIER  */
-#line 1391 "bison_parser.y"
+  case 321: /* alias: AS IDENTIFIER  */
+#line 1396 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 9632 "bison_parser.cpp"
+#line 9813 "bison_parser.cpp"
     break;
 
-  case 318: /* alias: IDENTIFIER  */
-#line 1392 "bison_parser.y"
+  case 322: /* alias: IDENTIFIER  */
+#line 1397 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 9638 "bison_parser.cpp"
+#line 9819 "bison_parser.cpp"
     break;
 
-  case 320: /* opt_alias: %empty  */
-#line 1394 "bison_parser.y"
+  case 324: /* opt_alias: %empty  */
+#line 1399 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 9644 "bison_parser.cpp"
+#line 9825 "bison_parser.cpp"
     break;
 
-  case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1400 "bison_parser.y"
+  case 325: /* opt_locking_clause: opt_locking_clause_list  */
+#line 1405 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 9650 "bison_parser.cpp"
+#line 9831 "bison_parser.cpp"
     break;
 
-  case 322: /* opt_locking_clause: %empty  */
-#line 1401 "bison_parser.y"
+  case 326: /* opt_locking_clause: %empty  */
+#line 1406 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 9656 "bison_parser.cpp"
+#line 9837 "bison_parser.cpp"
     break;
 
-  case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1403 "bison_parser.y"
+  case 327: /* opt_locking_clause_list: locking_clause  */
+#line 1408 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 9665 "bison_parser.cpp"
+#line 9846 "bison_parser.cpp"
     break;
 
-  case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1407 "bison_parser.y"
+  case 328: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
+#line 1412 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 9674 "bison_parser.cpp"
+#line 9855 "bison_parser.cpp"
     break;
 
-  case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1412 "bison_parser.y"
+  case 329: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
+#line 1417 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 9685 "bison_parser.cpp"
+#line 9866 "bison_parser.cpp"
     break;
 
-  case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1418 "bison_parser.y"
+  case 330: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
+#line 1423 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 9696 "bison_parser.cpp"
+#line 9877 "bison_parser.cpp"
     break;
 
-  case 327: /* row_lock_mode: UPDATE  */
-#line 1425 "bison_parser.y"
+  case 331: /* row_lock_mode: UPDATE  */
+#line 1430 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 9702 "bison_parser.cpp"
+#line 9883 "bison_parser.cpp"
     break;
 
-  case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1426 "bison_parser.y"
+  case 332: /* row_lock_mode: NO KEY UPDATE  */
+#line 1431 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 9708 "bison_parser.cpp"
+#line 9889 "bison_parser.cpp"
     break;
 
-  case 329: /* row_lock_mode: SHARE  */
-#line 1427 "bison_parser.y"
+  case 333: /* row_lock_mode: SHARE  */
+#line 1432 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 9714 "bison_parser.cpp"
+#line 9895 "bison_parser.cpp"
     break;
 
-  case 330: /* row_lock_mode: KEY SHARE  */
-#line 1428 "bison_parser.y"
+  case 334: /* row_lock_mode: KEY SHARE  */
+#line 1433 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 9720 "bison_parser.cpp"
+#line 9901 "bison_parser.cpp"
     break;
 
-  case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1430 "bison_parser.y"
+  case 335: /* opt_row_lock_policy: SKIP LOCKED  */
+#line 1435 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 9726 "bison_parser.cpp"
+#line 9907 "bison_parser.cpp"
     break;
 
-  case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1431 "bison_parser.y"
+  case 336: /* opt_row_lock_policy: NOWAIT  */
+#line 1436 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 9732 "bison_parser.cpp"
+#line 9913 "bison_parser.cpp"
     break;
 
-  case 333: /* opt_row_lock_policy: %empty  */
-#line 1432 "bison_parser.y"
+  case 337: /* opt_row_lock_policy: %empty  */
+#line 1437 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 9738 "bison_parser.cpp"
+#line 9919 "bison_parser.cpp"
     break;
 
-  case 335: /* opt_with_clause: %empty  */
-#line 1438 "bison_parser.y"
+  case 339: /* opt_with_clause: %empty  */
+#line 1443 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 9744 "bison_parser.cpp"
+#line 9925 "bison_parser.cpp"
     break;
 
-  case 336: /* with_clause: WITH with_description_list  */
-#line 1440 "bison_parser.y"
+  case 340: /* with_clause: WITH with_description_list  */
+#line 1445 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 9750 "bison_parser.cpp"
+#line 9931 "bison_parser.cpp"
     break;
 
-  case 337: /* with_description_list: with_description  */
-#line 1442 "bison_parser.y"
+  case 341: /* with_description_list: with_description  */
+#line 1447 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 9759 "bison_parser.cpp"
+#line 9940 "bison_parser.cpp"
     break;
 
-  case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1446 "bison_parser.y"
+  case 342: /* with_description_list: with_description_list ',' with_description  */
+#line 1451 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 9768 "bison_parser.cpp"
+#line 9949 "bison_parser.cpp"
     break;
 
-  case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1451 "bison_parser.y"
+  case 343: /* with_description: IDENTIFIER AS select_with_paren  */
+#line 1456 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 9778 "bison_parser.cpp"
+#line 9959 "bison_parser.cpp"
     break;
 
-  case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1461 "bison_parser.y"
+  case 344: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
+#line 1466 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -9786,11 +9967,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 9790 "bison_parser.cpp"
+#line 9971 "bison_parser.cpp"
     break;
 
-  case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1468 "bison_parser.y"
+  case 345: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
+#line 1473 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -9799,11 +9980,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 9803 "bison_parser.cpp"
+#line 9984 "bison_parser.cpp"
     break;
 
-  case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1476 "bison_parser.y"
+  case 346: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
+#line 1481 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -9812,89 +9993,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 9816 "bison_parser.cpp"
+#line 9997 "bison_parser.cpp"
     break;
 
-  case 343: /* opt_join_type: INNER  */
-#line 1485 "bison_parser.y"
+  case 347: /* opt_join_type: INNER  */
+#line 1490 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 9822 "bison_parser.cpp"
+#line 10003 "bison_parser.cpp"
     break;
 
-  case 344: /* opt_join_type: LEFT OUTER  */
-#line 1486 "bison_parser.y"
+  case 348: /* opt_join_type: LEFT OUTER  */
+#line 1491 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 9828 "bison_parser.cpp"
+#line 10009 "bison_parser.cpp"
     break;
 
-  case 345: /* opt_join_type: LEFT  */
-#line 1487 "bison_parser.y"
+  case 349: /* opt_join_type: LEFT  */
+#line 1492 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 9834 "bison_parser.cpp"
+#line 10015 "bison_parser.cpp"
     break;
 
-  case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1488 "bison_parser.y"
+  case 350: /* opt_join_type: RIGHT OUTER  */
+#line 1493 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 9840 "bison_parser.cpp"
+#line 10021 "bison_parser.cpp"
     break;
 
-  case 347: /* opt_join_type: RIGHT  */
-#line 1489 "bison_parser.y"
+  case 351: /* opt_join_type: RIGHT  */
+#line 1494 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 9846 "bison_parser.cpp"
+#line 10027 "bison_parser.cpp"
     break;
 
-  case 348: /* opt_join_type: FULL OUTER  */
-#line 1490 "bison_parser.y"
+  case 352: /* opt_join_type: FULL OUTER  */
+#line 1495 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 9852 "bison_parser.cpp"
+#line 10033 "bison_parser.cpp"
     break;
 
-  case 349: /* opt_join_type: OUTER  */
-#line 1491 "bison_parser.y"
+  case 353: /* opt_join_type: OUTER  */
+#line 1496 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 9858 "bison_parser.cpp"
+#line 10039 "bison_parser.cpp"
     break;
 
-  case 350: /* opt_join_type: FULL  */
-#line 1492 "bison_parser.y"
+  case 354: /* opt_join_type: FULL  */
+#line 1497 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 9864 "bison_parser.cpp"
+#line 10045 "bison_parser.cpp"
     break;
 
-  case 351: /* opt_join_type: CROSS  */
-#line 1493 "bison_parser.y"
+  case 355: /* opt_join_type: CROSS  */
+#line 1498 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 9870 "bison_parser.cpp"
+#line 10051 "bison_parser.cpp"
     break;
 
-  case 352: /* opt_join_type: %empty  */
-#line 1494 "bison_parser.y"
+  case 356: /* opt_join_type: %empty  */
+#line 1499 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 9876 "bison_parser.cpp"
+#line 10057 "bison_parser.cpp"
     break;
 
-  case 356: /* ident_commalist: IDENTIFIER  */
-#line 1505 "bison_parser.y"
+  case 360: /* ident_commalist: IDENTIFIER  */
+#line 1510 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 9885 "bison_parser.cpp"
+#line 10066 "bison_parser.cpp"
     break;
 
-  case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1509 "bison_parser.y"
+  case 361: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
+#line 1514 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 9894 "bison_parser.cpp"
+#line 10075 "bison_parser.cpp"
     break;
 
 
-#line 9898 "bison_parser.cpp"
+#line 10079 "bison_parser.cpp"
 
       default: break;
     }
@@ -10123,7 +10304,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1515 "bison_parser.y"
+#line 1520 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 701f094..b6dec09 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -276,7 +276,7 @@
 %type <join_type>              opt_join_type
 %type <table>                  opt_from_clause from_clause table_ref table_ref_atomic table_ref_name nonjoin_table_ref_atomic
 %type <table>                  join_clause table_ref_name_no_alias
-%type <expr>                   expr operand scalar_expr unary_expr binary_expr logic_expr exists_expr extract_expr cast_expr
+%type <expr>                   expr operand scalar_expr unary_expr binary_expr logic_expr not_expr exists_expr extract_expr cast_expr
 %type <expr>                   function_expr between_expr expr_alias param_expr
 %type <expr>                   column_name literal int_literal num_literal string_literal bool_literal date_literal interval_literal
 %type <expr>                   comp_expr opt_where join_condition opt_having case_expr case_list in_expr hint
@@ -325,6 +325,7 @@
 %left     OR
 %left     AND
 %right    NOT
+%nonassoc BETWEEN IN
 %nonassoc '=' EQUALS NOTEQUALS LIKE ILIKE
 %nonassoc '<' '>' LESS GREATER LESSEQ GREATEREQ
 
@@ -1127,7 +1128,7 @@ expr_alias : expr opt_alias {
   }
 };
 
-expr : operand | between_expr | logic_expr | exists_expr | in_expr;
+expr : operand | between_expr | logic_expr | not_expr | exists_expr | in_expr;
 
 operand : '(' expr ')' { $$ = $2; }
 | array_index | scalar_expr | unary_expr | binary_expr | case_expr | function_expr | extract_expr | cast_expr |
@@ -1157,6 +1158,10 @@ binary_expr : comp_expr | operand '-' operand { $$ = Expr::makeOpBinary($1, kOpM
 logic_expr : expr AND expr { $$ = Expr::makeOpBinary($1, kOpAnd, $3); }
 | expr OR expr { $$ = Expr::makeOpBinary($1, kOpOr, $3); };
 
+not_expr : NOT between_expr { $$ = Expr::makeOpUnary(kOpNot, $2); }
+| NOT in_expr { $$ = Expr::makeOpUnary(kOpNot, $2); }
+| NOT not_expr { $$ = Expr::makeOpUnary(kOpNot, $2); };
+
 in_expr : operand IN '(' expr_list ')' { $$ = Expr::makeInOperator($1, $4); }
 | operand NOT IN '(' expr_list ')' { $$ = Expr::makeOpUnary(kOpNot, Expr::makeInOperator($1, $5)); }
 | operand IN '(' select_no_paren ')' { $$ = Expr::makeInOperator($1, $4); }
-- 
2.43.0

