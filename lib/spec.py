"""The dialect: for every phrase of it, the result a parse has to give.

F(properties, lhs, form, result): a phrase of kind `lhs` consisting of the symbols of `form` is accepted and gives
`result` ("$2" is what the second symbol stands for)."""
from terms import (And, Any, App, Calc, Enum, Eq, Fact, If, IsConst, List, Mismatch, Mod, New, Not, Null, Or, Pair, Reject, Scan, Struct)

FORMS = []


class Form:
    def __init__(self, props, lhs, form, exp):
        self.props, self.lhs, self.text, self.exp = props.split(), lhs, form, exp
        self.form = ["'%s'" % t if len(t) == 1 and not t.isalnum() else t for t in form.split()]

    def __str__(self):
        return "%s : %s" % (self.lhs, self.text or "/* empty */")


def F(props, lhs, form, exp):
    FORMS.append(Form(props, lhs, form, exp))


def P(props, lhs, *forms):
    """phrases that are passed on as they are"""
    for f in forms:
        F(props, lhs, f, "$1")


def LISTOF(props, lhs, elem, sep=","):
    F(props, lhs, elem, List("$1"))
    F(props, lhs, "%s %s %s" % (lhs, sep, elem) if sep else "%s %s" % (lhs, elem), App("$1", "$3" if sep else "$2"))


Op = lambda op, a, b=0, **f: New("Expr", type="kExprOperator", opType=op, expr=a, expr2=b, **f)

# ---------------------------------------------------------------------------------------------- statements
F("C11 C16", "statement_list", "statement", List(Mod("$1", stringLength=Any())))
F("C11 C16", "statement_list", "statement_list ; statement", App("$1", Mod("$3", stringLength=Any())))
F("C06 C05", "statement", "prepare_statement opt_hints", Mod("$1", hints="$2"))
F("C06 C05", "statement", "preparable_statement opt_hints", Mod("$1", hints="$2"))
P("C06", "statement", "show_statement")
P("C07", "statement", "import_statement", "export_statement")
P("C06", "preparable_statement", "create_statement", "insert_statement", "delete_statement", "truncate_statement",
  "update_statement", "drop_statement", "alter_statement", "execute_statement", "transaction_statement")
P("C05", "preparable_statement", "select_statement")

F("C06", "opt_hints", "WITH HINT ( hint_list )", "$4")
F("C06", "opt_hints", "", 0)
LISTOF("C06", "hint_list", "hint")
F("C06", "hint", "IDENTIFIER", New("Expr", type="kExprHint", name="$1"))
F("C06", "hint", "IDENTIFIER ( extended_literal_list )", New("Expr", type="kExprHint", name="$1", exprList="$3"))

for kw, c in (("BEGIN", "kBeginTransaction"), ("ROLLBACK", "kRollbackTransaction"), ("COMMIT", "kCommitTransaction")):
    for t in ("", " TRANSACTION"):
        F("C06", "transaction_statement", kw + t, New("TransactionStatement", command=c))

F("C06", "prepare_statement", "PREPARE IDENTIFIER FROM STRING", New("PrepareStatement", name="$2", query="$4"))
F("C06", "execute_statement", "EXECUTE IDENTIFIER", New("ExecuteStatement", name="$2"))
F("C06", "execute_statement", "EXECUTE IDENTIFIER ( opt_extended_literal_list )", New("ExecuteStatement", name="$2", parameters="$4"))

# ---------------------------------------------------------------------------------------------- import and export
F("C07", "import_statement", "IMPORT FROM file_type FILE file_path INTO table_name",
  New("ImportStatement", type="$3", filePath="$5", schema="$7.schema", tableName="$7.name"))
F("C07", "import_statement", "COPY table_name FROM file_path opt_import_export_options opt_where",
  New("ImportStatement", type="$5.format", filePath="$4", schema="$2.schema", tableName="$2.name", whereClause="$6",
      encoding="$5.encoding", csv_options="$5.csv_options"))
F("C07 C19", "file_type", "IDENTIFIER",
  If(Eq("$1", "csv"), Enum("kImportCSV"), If(Eq("$1", "tbl"), Enum("kImportTbl"),
     If(Or(Eq("$1", "binary"), Eq("$1", "bin")), Enum("kImportBinary"), Reject()))))
P("C07", "file_path", "STRING")
F("C07", "opt_import_export_options", "WITH ( import_export_options )", "$3")
F("C07", "opt_import_export_options", "( import_export_options )", "$2")
F("C07", "opt_import_export_options", "", New("ImportExportOptions"))
F("C07 C19", "import_export_options", "import_export_options , FORMAT file_type",
  If(Not(IsConst("$1.format", Enum("kImportAuto"))), Reject(),
     If(And(Not(Null("$1.csv_options")), Not(IsConst("$4", Enum("kImportCSV"), Enum("kImportAuto")))), Reject(),
        Mod("$1", format="$4"))))
F("C07", "import_export_options", "FORMAT file_type", New("ImportExportOptions", format="$2"))
F("C07 C19", "import_export_options", "import_export_options , ENCODING STRING",
  If(Not(Null("$1.encoding")), Reject(), Mod("$1", encoding="$4")))
F("C07", "import_export_options", "ENCODING STRING", New("ImportExportOptions", encoding="$2"))

CSV = (("delimiter", "Delimiter"), ("null", "hsql::CsvOptionType::Null"), ("quote", "Quote"))


def csvconst(m, name):
    e = m.a.prog.enums["hsql::CsvOptionType"]
    return e[name.split("::")[-1]]


def csv_new(m, st, v, path):
    """the options object holds exactly the one given option"""
    first = m.ref(st, "$1.first")
    for field, cn in CSV:
        k = m.a.known(st, first)
        if k is None:
            continue
        if k == csvconst(m, cn):
            m.match(st, New("ImportExportOptions", csv_options=New("CsvOptions", **{field: "$1.second"})), v, path)
            return
    raise Mismatch("the option's name does not matter")


def csv_append(ref):
    def run(m, st, v, path):
        if m.test(st, Not(IsConst("$1.format", Enum("kImportAuto"), Enum("kImportCSV")))):
            raise Mismatch("CSV options are accepted for another format")
        k = m.a.known(st, m.ref(st, "$3.first"))
        name = next((f for f, cn in CSV if k == csvconst(m, cn)), None)
        if name is None:
            raise Mismatch("the option's name does not matter")
        if m.isnull(st, m.ref(st, "$1.csv_options")) is False or "csv_options" not in st.r(v[1]).wr:
            opts = m.a.getfield(st, v[1], "csv_options")
            if m.test(st, Not(Null("$1.csv_options"))) is not True:
                raise Mismatch("%s.csv_options is not looked at" % path)
            lab = "$1.csv_options.%s" % name
            o = st.r(opts[1])
            if o.label != "$1.csv_options":
                raise Mismatch("%s.csv_options is replaced" % path)
            m.match(st, Mod("$1", csv_options=Any()), v, path)
            m.match(st, "$3.second", o.f.get(name), "%s.csv_options.%s" % (path, name))
            if m.isnull(st, ("was", lab)) is not True:
                raise Mismatch("%s.csv_options.%s is overwritten" % (path, name))
            for n in o.wr:
                if n != name:
                    raise Mismatch("%s.csv_options.%s is changed" % (path, n))
            return
        m.match(st, Mod("$1", csv_options=New("CsvOptions", **{name: "$3.second"})), v, path)
    return run


def csv_repeated(m, st):
    """whether the option was given before"""
    k = m.a.known(st, m.ref(st, "$3.first"))
    name = next((f for f, cn in CSV if k == csvconst(m, cn)), None)
    co = m.test(st, Null("$1.csv_options"))
    if co is True:
        return False
    if name is None or co is None:
        return None
    r = m.isnull(st, ("was", "$1.csv_options.%s" % name))
    if r is None:
        r = m.isnull(st, m.ref(st, "$1.csv_options.%s" % name))
    return None if r is None else not r


F("C07 C19", "import_export_options", "import_export_options , csv_option",
  If(Not(IsConst("$1.format", Enum("kImportAuto"), Enum("kImportCSV"))), Reject(), If(Fact(csv_repeated), Reject(), Calc(csv_append("$1")))))
F("C07", "import_export_options", "csv_option", Calc(csv_new))
F("C07 C19", "csv_option", "IDENTIFIER STRING",
  If(Eq("$1", "delimiter"), Pair(Calc(lambda m, st, v, p: m.match(st, csvconst(m, "Delimiter"), v, p)), "$2"),
     If(Eq("$1", "quote"), Pair(Calc(lambda m, st, v, p: m.match(st, csvconst(m, "Quote"), v, p)), "$2"), Reject())))
F("C07", "csv_option", "NULL STRING", Pair(Calc(lambda m, st, v, p: m.match(st, csvconst(m, "Null"), v, p)), "$2"))
F("C07", "export_statement", "COPY table_name TO file_path opt_import_export_options",
  New("ExportStatement", type="$5.format", filePath="$4", schema="$2.schema", tableName="$2.name", encoding="$5.encoding",
      csv_options="$5.csv_options"))
F("C07", "export_statement", "COPY select_with_paren TO file_path opt_import_export_options",
  New("ExportStatement", type="$5.format", filePath="$4", select="$2", encoding="$5.encoding", csv_options="$5.csv_options"))

# ---------------------------------------------------------------------------------------------- show, create
F("C06", "show_statement", "SHOW TABLES", New("ShowStatement", type="kShowTables"))
F("C06", "show_statement", "SHOW COLUMNS table_name", New("ShowStatement", type="kShowColumns", schema="$3.schema", name="$3.name"))
F("C06", "show_statement", "DESCRIBE table_name", New("ShowStatement", type="kShowColumns", schema="$2.schema", name="$2.name"))
F("C06 C19", "create_statement", "CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path",
  If(Eq("$6", "tbl"), New("CreateStatement", type="kCreateTableFromTbl", ifNotExists="$3", schema="$4.schema", tableName="$4.name",
                          filePath="$8"), Reject()))


def columns_and_constraints(m, st, v, path):
    """the elements of the list, each on its own side, in order"""
    elems = m.ref(st, "$6")
    items = st.r(elems[1]).items if st.r(elems[1]).pre is None else None
    cols, cons = [], []
    for t in st.trace:
        if t[0] == "class" and t[1].startswith("$6["):
            (cols if t[2] == "hsql::ColumnDefinition" else cons).append((int(t[1][3:-1]), t[1]))
    m.match(st, New("CreateStatement", type="kCreateTable", ifNotExists="$3", schema="$4.schema", tableName="$4.name",
                    columns=Any(), tableConstraints=Any()), v, path)
    n = len(cols) + len(cons)
    if n < 2:
        raise Mismatch("the table elements are not all looked at")
    for f, want in (("columns", cols), ("tableConstraints", cons)):
        x = m.a.getfield(st, v[1], f)
        if not (isinstance(x, tuple) and x[0] == "ptr") or st.r(x[1]).kind != "vec":
            raise Mismatch("%s.%s is %s" % (path, f, m.show(st, x)))
        have = [st.r(e[1]).label if isinstance(e, tuple) and e[0] == "ptr" else str(e) for e in st.r(x[1]).items]
        if have != [l for _, l in sorted(want)]:
            raise Mismatch("%s.%s holds %s instead of %s" % (path, f, have, [l for _, l in sorted(want)]))
        for e in st.r(x[1]).items:
            m.unchanged(st, e[1], "%s.%s" % (path, f))


def error_before(m, st):
    v = st.env.get("result")
    for t in st.trace:
        if t[0] in ("null", "nonnull") and str(t[1]).endswith("errorMsg_"):
            return t[0] == "nonnull"
        if t[0] in ("==", "!=") and "isValid_" in str(t[1]):
            return (t[0] == "==") == (t[2] == 0)
    return None


F("C06", "create_statement", "CREATE TABLE opt_not_exists table_name ( table_elem_commalist )",
  If(Fact(error_before), Reject(), Calc(columns_and_constraints)))
F("C06 C05", "create_statement", "CREATE TABLE opt_not_exists table_name AS select_statement",
  New("CreateStatement", type="kCreateTable", ifNotExists="$3", schema="$4.schema", tableName="$4.name", select="$6"))
F("C06", "create_statement", "CREATE INDEX opt_not_exists opt_index_name ON table_name ( ident_commalist )",
  New("CreateStatement", type="kCreateIndex", indexName="$4", ifNotExists="$3", schema="$6.schema", tableName="$6.name", indexColumns="$8"))
F("C06 C05", "create_statement", "CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement",
  New("CreateStatement", type="kCreateView", ifNotExists="$3", schema="$4.schema", tableName="$4.name", viewColumns="$5", select="$7"))
F("C06", "opt_not_exists", "IF NOT EXISTS", 1)
F("C06", "opt_not_exists", "", 0)
LISTOF("C06", "table_elem_commalist", "table_elem")
P("C06", "table_elem", "column_def", "table_constraint")


def has(kind):
    def run(m, st):
        """membership of a constraint kind in the set of the operand, as far as the path looked"""
        e = m.a.prog.enums["hsql::ConstraintType"]
        c = e[kind]
        for t in st.trace:
            if t[0] in ("atom", "not") and isinstance(t[1], tuple) and t[1][0] == "in" and t[1][1] == "$3.constraints" and t[1][2] == c:
                return t[0] == "atom"
        return None
    return run


CONFLICT = And(Or(Fact(has("NotNull")), Fact(has("PrimaryKey"))), Fact(has("Null")))
F("C06 C19", "column_def", "IDENTIFIER column_type opt_column_constraints",
  If(CONFLICT, Reject(),
     New("ColumnDefinition", column_constraints="$3.constraints", references="$3.references", name="$1", type="$2",
         nullable=If(Or(Fact(has("NotNull")), Fact(has("PrimaryKey"))), 0, 1))))

T = lambda t, **f: Struct("ColumnType", data_type=Calc(lambda m, st, v, p, t=t: m.match(st, m.a.prog.enums["hsql::DataType"][t], v, p)), **f)
for kw, t in (("BIGINT", "BIGINT"), ("BOOLEAN", "BOOLEAN"), ("DATE", "DATE"), ("DATETIME", "DATETIME"), ("DOUBLE", "DOUBLE"), ("FLOAT", "FLOAT"),
              ("INT", "INT"), ("INTEGER", "INT"), ("LONG", "LONG"), ("REAL", "REAL"), ("SMALLINT", "SMALLINT"), ("TEXT", "TEXT"),
              ("TIMESTAMP", "DATETIME")):
    F("C06 C04", "column_type", kw, T(t))
for kw, t in (("CHAR", "CHAR"), ("CHARACTER_VARYING", "VARCHAR"), ("VARCHAR", "VARCHAR")):
    F("C06 C04", "column_type", kw + " ( INTVAL )", T(t, length="$3"))
F("C06 C04", "column_type", "DECIMAL ( INTVAL , INTVAL )", T("DECIMAL", precision="$3", scale="$5"))
F("C06 C04", "column_type", "DECIMAL ( INTVAL )", T("DECIMAL", precision="$3"))
F("C06 C04", "column_type", "DECIMAL", T("DECIMAL"))
F("C06 C04", "column_type", "TIME ( INTVAL )", T("TIME", precision="$3"))
F("C06 C04", "column_type", "TIME", T("TIME"))

CT = lambda k: Calc(lambda m, st, v, p: m.match(st, m.a.prog.enums["hsql::ConstraintType"][k], v, p))
ENUMCT = lambda k: k
F("C06", "opt_column_constraints", "", New("ColumnConstraints", constraints=List(), references=List()))
P("C06", "opt_column_constraints", "column_constraints")
F("C06", "column_constraints", "column_constraint", New("ColumnConstraints", constraints=List("$1"), references=List()))
F("C06", "column_constraints", "references_spec", New("ColumnConstraints", constraints=List(CT("ForeignKey")), references=List("$1")))


def adds(elem, ref):
    def run(m, st, v, path):
        m.match(st, "$1", v, path) if False else None
        if v != m.ref(st, "$1"):
            raise Mismatch("%s is not $1" % path)
        if st.r(v[1]).wr:
            raise Mismatch("%s.%s is replaced" % (path, next(iter(st.r(v[1]).wr))))
        s = m.a.getfield(st, v[1], "constraints")
        want = m.a.prog.enums["hsql::ConstraintType"]["ForeignKey"] if elem is None else m.ref(st, elem)
        o = st.r(s[1])
        present = any(t[0] == "atom" and isinstance(t[1], tuple) and t[1][0] == "in" and t[1][1] == "$1.constraints" for t in st.trace)
        if o.pre is None and o.label:
            old = {t[1][2] for t in st.trace if t[0] == "atom" and isinstance(t[1], tuple) and t[1][:2] == ("in", "$1.constraints")}
            k = m.a.known(st, want)
            if {m.a.known(st, x) for x in o.items} != old | {k} or k is None:
                raise Mismatch("%s.constraints gets %s" % (path, [m.show(st, x) for x in o.items]))
        elif not present and o.items != [want]:
            raise Mismatch("%s.constraints gets %s" % (path, [m.show(st, x) for x in o.items]))
        elif present and o.items not in ([], [want]):
            raise Mismatch("%s.constraints gets %s" % (path, [m.show(st, x) for x in o.items]))
        r = m.a.getfield(st, v[1], "references")
        m.match(st, App("$1.references", *( [ref] if ref else [])), r, path + ".references")
    return Calc(run)


F("C06", "column_constraints", "column_constraints column_constraint", adds("$2", None))
F("C06", "column_constraints", "column_constraints references_spec", adds(None, "$2"))
F("C06", "column_constraint", "PRIMARY KEY", CT("PrimaryKey"))
F("C06", "column_constraint", "UNIQUE", CT("Unique"))
F("C06", "column_constraint", "NULL", CT("Null"))
F("C06", "column_constraint", "NOT NULL", CT("NotNull"))
F("C06", "table_constraint", "PRIMARY KEY ( ident_commalist )", New("TableConstraint", type=CT("PrimaryKey"), columnNames="$4"))
F("C06", "table_constraint", "UNIQUE ( ident_commalist )", New("TableConstraint", type=CT("Unique"), columnNames="$3"))
F("C06", "table_constraint", "FOREIGN KEY ( ident_commalist ) references_spec",
  New("ForeignKeyConstraint", type=CT("ForeignKey"), columnNames="$4", references="$6"))
F("C06", "references_spec", "REFERENCES table_name opt_column_list",
  New("ReferencesSpecification", schema="$2.schema", table="$2.name", columns="$3"))

# ---------------------------------------------------------------------------------------------- drop, alter, delete, insert, update
for kw, c in (("TABLE", "kDropTable"), ("VIEW", "kDropView")):
    F("C06", "drop_statement", "DROP %s opt_exists table_name" % kw,
      New("DropStatement", type=c, ifExists="$3", schema="$4.schema", name="$4.name"))
F("C06", "drop_statement", "DROP INDEX opt_exists IDENTIFIER", New("DropStatement", type="kDropIndex", ifExists="$3", indexName="$4"))
F("C06", "drop_statement", "DEALLOCATE PREPARE IDENTIFIER", New("DropStatement", type="kDropPreparedStatement", name="$3"))
F("C06", "opt_exists", "IF EXISTS", 1)
F("C06", "opt_exists", "", 0)
F("C06", "alter_statement", "ALTER TABLE opt_exists table_name alter_action",
  New("AlterStatement", ifTableExists="$3", schema="$4.schema", name="$4.name", action="$5"))
F("C06", "alter_action", "DROP COLUMN opt_exists IDENTIFIER", New("DropColumnAction", columnName="$4", ifExists="$3"))
F("C06", "delete_statement", "DELETE FROM table_name opt_where",
  New("DeleteStatement", schema="$3.schema", tableName="$3.name", expr="$4"))
F("C06", "truncate_statement", "TRUNCATE table_name", New("DeleteStatement", schema="$2.schema", tableName="$2.name"))
F("C06", "insert_statement", "INSERT INTO table_name opt_column_list VALUES ( extended_literal_list )",
  New("InsertStatement", type="kInsertValues", schema="$3.schema", tableName="$3.name", columns="$4", values="$7"))
F("C06 C05", "insert_statement", "INSERT INTO table_name opt_column_list select_no_paren",
  New("InsertStatement", type="kInsertSelect", schema="$3.schema", tableName="$3.name", columns="$4", select="$5"))
F("C06", "opt_column_list", "( ident_commalist )", "$2")
F("C06", "opt_column_list", "", 0)
F("C06", "update_statement", "UPDATE table_name SET update_clause_commalist opt_where",
  New("UpdateStatement", table=New("TableRef", type="kTableName", schema="$2.schema", name="$2.name"), updates="$4", where="$5"))
LISTOF("C06", "update_clause_commalist", "update_clause")
F("C06", "update_clause", "IDENTIFIER = expr", New("UpdateClause", column="$1", value="$3"))

# ---------------------------------------------------------------------------------------------- queries
F("C05", "select_statement", "opt_with_clause select_with_paren", Mod("$2", withDescriptions="$1"))
F("C05", "select_statement", "opt_with_clause select_no_paren", Mod("$2", withDescriptions="$1"))


def setop(s, **f):
    """the set operation is appended to those the query on the left already has"""
    op = Mod(f.pop("op"), **f.pop("opf"))
    return Mod(s, setOperations=If(Null(s + ".setOperations"), List(op), App(s + ".setOperations", op)), **f)


F("C05", "select_statement", "opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit",
  setop("$2", op="$3", opf=dict(nestedSelectStatement="$4", resultOrder="$5", resultLimit="$6"), withDescriptions="$1"))
P("C05", "select_within_set_operation", "select_with_paren", "select_clause")
F("C05", "select_within_set_operation", "select_clause set_operator select_within_set_operation",
  setop("$1", op="$2", opf=dict(nestedSelectStatement="$3")))
F("C05", "select_with_paren", "( select_no_paren )", "$2")
F("C05", "select_with_paren", "( select_with_paren )", "$2")
F("C05", "select_no_paren", "select_clause opt_order opt_limit opt_locking_clause",
  Mod("$1", order="$2", limit=If(Null("$3"), "$1.limit", "$3"), lockings="$4"))
F("C05", "select_no_paren", "select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause",
  setop("$1", op="$2", opf=dict(nestedSelectStatement="$3", resultOrder="$4", resultLimit="$5"), lockings="$6"))
for kw, c in (("UNION", "kSetUnion"), ("INTERSECT", "kSetIntersect"), ("EXCEPT", "kSetExcept")):
    F("C05", "set_operator", kw, New("SetOperation", setType=c, isAll=0))
    F("C05", "set_operator", kw + " ALL", New("SetOperation", setType=c, isAll=1))
F("C05", "select_clause", "SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group",
  New("SelectStatement", limit="$2", selectDistinct="$3", selectList="$4", fromTable="$5", whereClause="$6", groupBy="$7"))
F("C05 C04", "opt_distinct", "DISTINCT", 1)
F("C05 C04", "opt_distinct", "", 0)
P("C05", "select_list", "expr_list")
F("C05", "opt_from_clause", "FROM table_ref", "$2")
F("C05", "opt_from_clause", "", 0)
F("C05 C06 C07", "opt_where", "WHERE expr", "$2")
F("C05 C06 C07", "opt_where", "", 0)
F("C05", "opt_group", "GROUP BY expr_list opt_having", New("GroupByDescription", columns="$3", having="$4"))
F("C05", "opt_group", "", 0)
F("C05", "opt_having", "HAVING expr", "$2")
F("C05", "opt_having", "", 0)
F("C05 C04", "opt_order", "ORDER BY order_list", "$3")
F("C05 C04", "opt_order", "", 0)
LISTOF("C05 C04", "order_list", "order_desc")
F("C05 C04", "order_desc", "expr opt_order_type opt_null_ordering", New("OrderDescription", type="$2", expr="$1", null_ordering="$3"))
F("C05", "opt_order_type", "ASC", Enum("kOrderAsc"))
F("C05", "opt_order_type", "DESC", Enum("kOrderDesc"))
F("C05", "opt_order_type", "", Enum("kOrderAsc"))
NULLORD = lambda k: Calc(lambda m, st, v, p: m.match(st, m.a.prog.enums["hsql::NullOrdering"][k], v, p))
F("C05", "opt_null_ordering", "", NULLORD("Undefined"))
F("C05 C19", "opt_null_ordering", "IDENTIFIER IDENTIFIER",
  If(And(Eq("$1", "nulls"), Eq("$2", "first")), NULLORD("First"), If(And(Eq("$1", "nulls"), Eq("$2", "last")), NULLORD("Last"), Reject())))
F("C05", "opt_top", "TOP int_literal", New("LimitDescription", limit="$2"))
F("C05", "opt_top", "", 0)
F("C05", "opt_limit", "LIMIT expr", New("LimitDescription", limit="$2"))
F("C05", "opt_limit", "OFFSET expr", New("LimitDescription", offset="$2"))
F("C05", "opt_limit", "LIMIT expr OFFSET expr", New("LimitDescription", limit="$2", offset="$4"))
F("C05", "opt_limit", "LIMIT ALL", New("LimitDescription"))
F("C05", "opt_limit", "LIMIT ALL OFFSET expr", New("LimitDescription", offset="$4"))
F("C05", "opt_limit", "", 0)
F("C05", "opt_locking_clause", "", 0)
P("C05", "opt_locking_clause", "opt_locking_clause_list")
LISTOF("C05", "opt_locking_clause_list", "locking_clause", None)
F("C05", "locking_clause", "FOR row_lock_mode opt_row_lock_policy", New("LockingClause", rowLockMode="$2", rowLockWaitPolicy="$3"))
F("C05", "locking_clause", "FOR row_lock_mode OF ident_commalist opt_row_lock_policy",
  New("LockingClause", rowLockMode="$2", rowLockWaitPolicy="$5", tables="$4"))
E_ = lambda enum, k: Calc(lambda m, st, v, p: m.match(st, m.a.prog.enums["hsql::" + enum][k], v, p))
for t, k in (("UPDATE", "ForUpdate"), ("NO KEY UPDATE", "ForNoKeyUpdate"), ("SHARE", "ForShare"), ("KEY SHARE", "ForKeyShare")):
    F("C05", "row_lock_mode", t, E_("RowLockMode", k))
for t, k in (("SKIP LOCKED", "SkipLocked"), ("NOWAIT", "NoWait"), ("", "None")):
    F("C05", "opt_row_lock_policy", t, E_("RowLockWaitPolicy", k))
F("C05", "opt_with_clause", "WITH with_description_list", "$2")
F("C05", "opt_with_clause", "", 0)
LISTOF("C05", "with_description_list", "with_description")
F("C05", "with_description", "IDENTIFIER AS select_with_paren", New("WithDescription", alias="$1", select="$3"))

# ---------------------------------------------------------------------------------------------- tables and joins
P("C05", "table_ref", "table_ref_atomic")
F("C05", "table_ref", "table_ref_commalist , table_ref_atomic", New("TableRef", type="kTableCrossProduct", list=App("$1", "$3")))
LISTOF("C05", "table_ref_commalist", "table_ref_atomic")
P("C05", "table_ref_atomic", "nonjoin_table_ref_atomic")
F("C05", "nonjoin_table_ref_atomic", "table_name opt_table_alias",
  New("TableRef", type="kTableName", schema="$1.schema", name="$1.name", alias="$2"))
F("C05", "nonjoin_table_ref_atomic", "( select_statement ) opt_table_alias", New("TableRef", type="kTableSelect", select="$2", alias="$4"))
J = lambda **f: New("TableRef", type="kTableJoin", join=New("JoinDefinition", **f))
F("C05", "table_ref_atomic", "table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic", J(type="kJoinNatural", left="$1", right="$4"))
for t, k in (("INNER", "kJoinInner"), ("LEFT OUTER", "kJoinLeft"), ("LEFT", "kJoinLeft"), ("RIGHT OUTER", "kJoinRight"), ("RIGHT", "kJoinRight"),
             ("FULL OUTER", "kJoinFull"), ("OUTER", "kJoinFull"), ("FULL", "kJoinFull"), ("CROSS", "kJoinCross"), ("", "kJoinInner")):
    n = len(t.split())
    F("C05", "table_ref_atomic", "table_ref_atomic %s JOIN table_ref_atomic ON expr" % t,
      J(type=k, left="$1", right="$%d" % (n + 3), condition="$%d" % (n + 5)))
    F("C05", "table_ref_atomic", "table_ref_atomic %s JOIN table_ref_atomic USING ( ident_commalist )" % t,
      J(type=k, left="$1", right="$%d" % (n + 3), namedColumns="$%d" % (n + 6)))
F("C05 C06 C07", "table_name", "IDENTIFIER", Calc(lambda m, st, v, p: table_name(m, st, v, p, 0, "$1")))
F("C05 C06 C07", "table_name", "IDENTIFIER . IDENTIFIER", Calc(lambda m, st, v, p: table_name(m, st, v, p, "$1", "$3")))


def table_name(m, st, v, path, schema, name):
    m.obj(st, v, path)
    m.match(st, schema, m.a.getfield(st, v[1], "schema"), path + ".schema")
    m.match(st, name, m.a.getfield(st, v[1], "name"), path + ".name")


F("C06", "opt_index_name", "IDENTIFIER", "$1")
F("C06", "opt_index_name", "", 0)
for l in ("opt_table_alias", "opt_alias"):
    F("C05 C04", l, "AS IDENTIFIER", New("Alias", name="$2"))
    F("C05 C04", l, "IDENTIFIER", New("Alias", name="$1"))
    F("C05 C04", l, "", 0)
F("C05", "opt_table_alias", "AS IDENTIFIER ( ident_commalist )", New("Alias", name="$2", columns="$4"))
LISTOF("C05 C06", "ident_commalist", "IDENTIFIER")

# ---------------------------------------------------------------------------------------------- expressions
LISTOF("C04 C05", "expr_list", "expr_alias")
F("C06", "opt_extended_literal_list", "extended_literal_list", "$1")
F("C06", "opt_extended_literal_list", "", 0)
LISTOF("C06", "extended_literal_list", "casted_extended_literal")
P("C06", "casted_extended_literal", "extended_literal")
F("C06 C04", "casted_extended_literal", "CAST ( extended_literal AS column_type )", New("Expr", type="kExprCast", expr="$3", columnType="$5"))
F("C06 C19", "extended_literal", "literal", If(IsConst("$1.type", Enum("kExprParameter")), Reject(), "$1"))
F("C06 C04 C10", "extended_literal", "- num_literal", Op("kOpUnaryMinus", "$2"))
F("C06 C04 C10", "extended_literal", "- interval_literal", Op("kOpUnaryMinus", "$2"))
F("C04 C05", "expr_alias", "expr opt_alias", If(Null("$2"), "$1", Mod("$1", alias="$2.name")))
P("C04", "expr", "operand", "between_expr", "logic_expr", "exists_expr", "in_expr")
F("C04 C08", "operand", "( expr )", "$2")
F("C04 C05", "operand", "( select_no_paren )", New("Expr", type="kExprSelect", select="$2"))
P("C04", "operand", "column_name", "literal", "array_index", "case_expr", "function_expr", "extract_expr", "cast_expr", "array_expr")
F("C04 C08", "operand", "- operand", Op("kOpUnaryMinus", "$2"))
F("C04 C08", "operand", "NOT operand", Op("kOpNot", "$2"))
F("C04 C08", "operand", "operand ISNULL", Op("kOpIsNull", "$1"))
F("C04 C08", "operand", "operand IS NULL", Op("kOpIsNull", "$1"))
F("C04 C08", "operand", "operand IS NOT NULL", Op("kOpNot", Op("kOpIsNull", "$1")))
BINARY = (("-", "kOpMinus"), ("+", "kOpPlus"), ("/", "kOpSlash"), ("*", "kOpAsterisk"), ("%", "kOpPercentage"), ("^", "kOpCaret"), ("LIKE", "kOpLike"),
          ("ILIKE", "kOpILike"), ("CONCAT", "kOpConcat"), ("=", "kOpEquals"), ("EQUALS", "kOpEquals"), ("NOTEQUALS", "kOpNotEquals"), ("<", "kOpLess"),
          (">", "kOpGreater"), ("LESSEQ", "kOpLessEq"), ("GREATEREQ", "kOpGreaterEq"))
for t, k in BINARY:
    F("C04 C08", "operand", "operand %s operand" % t, Op(k, "$1", "$3"))
F("C04 C08", "operand", "operand NOT LIKE operand", Op("kOpNotLike", "$1", "$4"))
F("C04 C08", "expr", "expr AND expr", Op("kOpAnd", "$1", "$3"))
F("C04 C08", "expr", "expr OR expr", Op("kOpOr", "$1", "$3"))
F("C04 C08", "expr", "operand IN ( expr_list )", Op("kOpIn", "$1", exprList="$4"))
F("C04 C08", "expr", "operand NOT IN ( expr_list )", Op("kOpNot", Op("kOpIn", "$1", exprList="$5")))
F("C04 C08", "expr", "operand IN ( select_no_paren )", Op("kOpIn", "$1", select="$4"))
F("C04 C08", "expr", "operand NOT IN ( select_no_paren )", Op("kOpNot", Op("kOpIn", "$1", select="$5")))
F("C04 C08", "expr", "NOT operand IN ( expr_list )", Op("kOpNot", Op("kOpIn", "$2", exprList="$5")))
F("C04 C08", "expr", "NOT operand IN ( select_no_paren )", Op("kOpNot", Op("kOpIn", "$2", select="$5")))
F("C04 C08", "expr", "NOT operand NOT IN ( expr_list )", Op("kOpNot", Op("kOpNot", Op("kOpIn", "$2", exprList="$6"))))
F("C04 C08", "expr", "NOT operand NOT IN ( select_no_paren )", Op("kOpNot", Op("kOpNot", Op("kOpIn", "$2", select="$6"))))
F("C04 C08", "expr", "NOT NOT operand IN ( expr_list )", Op("kOpNot", Op("kOpNot", Op("kOpIn", "$3", exprList="$6"))))
F("C04 C08", "expr", "EXISTS ( select_no_paren )", Op("kOpExists", 0, select="$3"))
F("C04 C08", "expr", "NOT EXISTS ( select_no_paren )", Op("kOpNot", Op("kOpExists", 0, select="$4")))
F("C04 C08", "expr", "operand BETWEEN operand AND operand", Op("kOpBetween", "$1", exprList=List("$3", "$5")))
F("C04 C08", "expr", "NOT operand BETWEEN operand AND operand", Op("kOpNot", Op("kOpBetween", "$2", exprList=List("$4", "$6"))))
F("C04", "case_expr", "CASE expr case_list END", Op("kOpCase", "$2", 0, exprList="$3.exprList"))
F("C04", "case_expr", "CASE expr case_list ELSE expr END", Op("kOpCase", "$2", "$5", exprList="$3.exprList"))
F("C04", "case_expr", "CASE case_list END", Op("kOpCase", 0, 0, exprList="$2.exprList"))
F("C04", "case_expr", "CASE case_list ELSE expr END", Op("kOpCase", 0, "$4", exprList="$2.exprList"))
WHEN = lambda a, b: Op("kOpCaseListElement", a, b)
F("C04", "case_list", "WHEN expr THEN expr",
  Calc(lambda m, st, v, p: m.match(st, List(WHEN("$2", "$4")), m.a.getfield(st, m.obj(st, v, p) and v[1], "exprList"), p + ".exprList")))


def case_append(m, st, v, path):
    if v != m.ref(st, "$1"):
        raise Mismatch("%s is not $1" % path)
    m.match(st, App("$1.exprList", WHEN("$3", "$5")), m.a.getfield(st, v[1], "exprList"), path + ".exprList")


F("C04", "case_list", "case_list WHEN expr THEN expr", Calc(case_append))
FN = lambda **f: New("Expr", type="kExprFunctionRef", **f)
F("C04", "function_expr", "IDENTIFIER ( ) opt_window", FN(name="$1", exprList=List(), windowDescription="$4"))
F("C04", "function_expr", "IDENTIFIER ( opt_distinct expr_list ) opt_window",
  FN(name="$1", exprList="$4", distinct="$3", windowDescription="$6"))
F("C04", "function_expr", "IDENTIFIER . IDENTIFIER ( ) opt_window", FN(schema="$1", name="$3", exprList=List(), windowDescription="$6"))
F("C04", "function_expr", "IDENTIFIER . IDENTIFIER ( opt_distinct expr_list ) opt_window",
  FN(schema="$1", name="$3", exprList="$6", distinct="$5", windowDescription="$8"))
F("C04", "opt_window", "OVER ( opt_partition opt_order opt_frame_clause )",
  New("WindowDescription", partitionList="$3", orderList="$4", frameDescription="$5"))
F("C04", "opt_window", "", 0)
F("C04", "opt_partition", "PARTITION BY expr_list", "$3")
F("C04", "opt_partition", "", 0)
FB = lambda t, off=0, u=0: New("FrameBound", offset=off, type=t, unbounded=u)
F("C04", "opt_frame_clause", "frame_type frame_bound", New("FrameDescription", type="$1", start="$2", end=FB("kCurrentRow")))
F("C04", "opt_frame_clause", "frame_type BETWEEN frame_bound AND frame_bound", New("FrameDescription", type="$1", start="$3", end="$5"))
F("C04", "opt_frame_clause", "", New("FrameDescription", type="kRange", start=FB("kPreceding", 0, 1), end=FB("kCurrentRow")))
for t, k in (("RANGE", "kRange"), ("ROWS", "kRows"), ("GROUPS", "kGroups")):
    F("C04", "frame_type", t, Enum(k))
F("C04", "frame_bound", "UNBOUNDED PRECEDING", FB("kPreceding", 0, 1))
F("C04", "frame_bound", "INTVAL PRECEDING", FB("kPreceding", "$1"))
F("C04", "frame_bound", "UNBOUNDED FOLLOWING", FB("kFollowing", 0, 1))
F("C04", "frame_bound", "INTVAL FOLLOWING", FB("kFollowing", "$1"))
F("C04", "frame_bound", "CURRENT_ROW", FB("kCurrentRow"))
F("C04", "extract_expr", "EXTRACT ( datetime_field FROM expr )", New("Expr", type="kExprExtract", datetimeField="$3", expr="$5"))
F("C04", "cast_expr", "CAST ( expr AS column_type )", New("Expr", type="kExprCast", expr="$3", columnType="$5"))
UNITS = (("SECOND", "kDatetimeSecond"), ("MINUTE", "kDatetimeMinute"), ("HOUR", "kDatetimeHour"), ("DAY", "kDatetimeDay"),
         ("MONTH", "kDatetimeMonth"), ("YEAR", "kDatetimeYear"))
for t, k in UNITS:
    F("C04 C10", "datetime_field", t, Enum(k))
    F("C10", "duration_field", t, Enum(k))
    F("C10", "duration_field", t + "S", Enum(k))
F("C04", "array_expr", "ARRAY [ expr_list ]", New("Expr", type="kExprArray", exprList="$3"))
F("C04 C10", "array_index", "operand [ INTVAL ]", New("Expr", type="kExprArrayIndex", expr="$1", ival="$3"))
F("C04", "column_name", "IDENTIFIER", New("Expr", type="kExprColumnRef", name="$1"))
F("C04", "column_name", "IDENTIFIER . IDENTIFIER", New("Expr", type="kExprColumnRef", table="$1", name="$3"))
F("C04", "column_name", "*", New("Expr", type="kExprStar"))
F("C04", "column_name", "IDENTIFIER . *", New("Expr", type="kExprStar", table="$1"))
P("C04 C10", "literal", "string_literal", "bool_literal", "num_literal", "null_literal", "date_literal", "interval_literal", "param_expr")
F("C04 C10", "string_literal", "STRING", New("Expr", type="kExprLiteralString", name="$1"))
F("C04 C10", "bool_literal", "TRUE", New("Expr", type="kExprLiteralInt", ival=1, isBoolLiteral=1))
F("C04 C10", "bool_literal", "FALSE", New("Expr", type="kExprLiteralInt", ival=0, isBoolLiteral=1))
F("C04 C10", "num_literal", "FLOATVAL", New("Expr", type="kExprLiteralFloat", fval="$1"))
P("C04 C10", "num_literal", "int_literal")
F("C04 C10", "int_literal", "INTVAL", New("Expr", type="kExprLiteralInt", ival="$1"))
F("C04 C10", "null_literal", "NULL", New("Expr", type="kExprLiteralNull"))
F("C04 C10 C19", "date_literal", "DATE STRING", If(Scan("$2", "date"), New("Expr", type="kExprLiteralDate", name="$2"), Reject()))
F("C04 C10", "interval_literal", "INTVAL duration_field", New("Expr", type="kExprLiteralInterval", ival="$1", datetimeField="$2"))


def scanned(i, conv):
    """the i-th part of the scanned string"""
    def run(m, st, v, path):
        x = v
        while isinstance(x, tuple) and x[0] == "app" and x[1] in ("IntegralCast", "cast"):
            x = x[-1]
        if not (isinstance(x, tuple) and x[:2] == ("app", "scan") and x[2] == ("tok", "$2") and x[4] == i and x[5] in conv):
            raise Mismatch("%s is %s instead of the number in $2" % (path, m.show(st, v)))
    return Calc(run)


def unit(word):
    """the unit in the scanned string is this word, singular or plural"""
    def run(m, st):
        r = None
        for t in st.trace:
            if t[0] in ("==", "!=") and isinstance(t[1], tuple) and t[1][0] == "scmp" and isinstance(t[1][1], tuple) and \
                    t[1][1][:2] == ("app", "scan") and t[1][1][5] == "s":
                c = t[1][1]
                r1, r2 = m.eq_content(st, c, word), m.eq_content(st, c, word + "s")
                if r1 or r2:
                    return True
                if r1 is False and r2 is False:
                    return False
        return r
    return Fact(run)


IV = lambda k: New("Expr", type="kExprLiteralInterval", ival=scanned(0, "di"), datetimeField=k)
F("C04 C10 C19", "interval_literal", "INTERVAL STRING datetime_field", If(Scan("$2", "count"), IV("$3"), Reject()))
exp = Reject()
for t, k in reversed(UNITS):
    exp = If(unit(t.lower()), IV(k), exp)
F("C04 C10 C19", "interval_literal", "INTERVAL STRING", If(Scan("$2", "count unit"), exp, Reject()))
F("C04 C12", "param_expr", "?", New("Expr", type="kExprParameter", ival=Any(), ival2=Any()))
