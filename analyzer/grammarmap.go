package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C11, first half: what the statements of the grammar say, and where it is put
// in the parsed tree. Each line gives a part of the tree (or a symbol of the
// grammar with a plain value), and where its value may come from: a symbol,
// with the keyword before it in the rule; or a constant, with the keywords of
// the rule that means it. A keyword whose text is the value is a symbol, too.
const grammarPlaces = `
ColIdent.val: "CASCADE"@CASCADE; "NO ACTION"@NO ACTION; "RESTRICT"@RESTRICT; "SET NULL"@SET NULL; ID; non_reserved_keyword; reserved_keyword
ColumnDefinition.Name.val: ID
ColumnDefinition.Type: column_definition_type
ColumnType: column_definition_type; column_type; int_type; numeric_type
ColumnType.Array: array_opt
ColumnType.Autoincrement: false@; true@AUTOINCREMENT; true@AUTO_INCREMENT
ColumnType.Charset: charset_opt@*
ColumnType.Check.ConstraintName: sql_id@CONSTRAINT
ColumnType.Check.NotForReplication: not_for_replication_opt@CHECK
ColumnType.Check.Where.Expr: expression@CHECK
ColumnType.Check.Where.Type: "where"@CHECK; "where"@CONSTRAINT CHECK
ColumnType.CheckNoInherit: no_inherit_opt@CHECK
ColumnType.Collate: collate_opt@*
ColumnType.Comment: nil@
ColumnType.Comment.Val: STRING@COMMENT_KEYWORD
ColumnType.Default: nil@
ColumnType.Default.ConstraintName: sql_id@CONSTRAINT
ColumnType.Default.Value: default_definition; default_definition@CONSTRAINT
ColumnType.EnumValues: enum_values@ENUM; enum_values@SET
ColumnType.Identity: nil@
ColumnType.Identity.Behavior: identity_behavior@GENERATED
ColumnType.Identity.Sequence: sequence_opt@IDENTITY
ColumnType.Identity.Sequence.IncrementBy.Type: 1@IDENTITY
ColumnType.Identity.Sequence.IncrementBy.Val: INTEGRAL@IDENTITY
ColumnType.Identity.Sequence.StartWith.Type: 1@IDENTITY
ColumnType.Identity.Sequence.StartWith.Val: INTEGRAL@IDENTITY
ColumnType.KeyOpt: 0@; 1@PRIMARY KEY; 3@UNIQUE; 4@UNIQUE KEY; 5@KEY
ColumnType.Length: decimal_length_opt.Length@DECIMAL; decimal_length_opt.Length@NUMERIC; float_length_opt.Length@*; length_opt@*
ColumnType.NotNull: false@NULL; nil@; true@GENERATED AS IDENTITY; true@NOT NULL
ColumnType.OnUpdate: current_timestamp@UPDATE; nil@
ColumnType.ReferenceNames: column_list@REFERENCES
ColumnType.References: table_id.v@REFERENCES
ColumnType.Scale: decimal_length_opt.Scale@DECIMAL; decimal_length_opt.Scale@NUMERIC; float_length_opt.Scale@*
ColumnType.Timezone: time_zone_opt@TIME; time_zone_opt@TIMESTAMP
ColumnType.Type: FIRST; CHARACTER+" "+VARYING@CHARACTER VARYING; DOUBLE+" "+PRECISION@DOUBLE PRECISION
ColumnType.Unsigned: unsigned_opt
ColumnType.Zerofill: zero_fill_opt
DDL.Action: "add foreign key"@ALTER TABLE ONLY ADD; "add index"@ALTER TABLE ADD; "add primary key"@ALTER TABLE ONLY ADD CONSTRAINT PRIMARY KEY; "add vindex"@ALTER TABLE ADD VINDEX; "alter"@ALTER TABLE; "alter"@ALTER TABLE ADD; "alter"@ALTER TABLE DROP; "alter"@ALTER TABLE RENAME; "alter"@ALTER VIEW; "create index"@CREATE INDEX ON; "create index"@CREATE INDEX ON USING; "create index"@CREATE INDEX USING ON; "create policy"@CREATE POLICY ON TO; "create trigger"@CREATE TRIGGER ON AS; "create trigger"@CREATE TRIGGER ON FOR EACH ROW; "create view"@CREATE VIEW AS; "create vindex"@CREATE VINDEX; "create"@CREATE TABLE; "drop vindex"@ALTER TABLE DROP VINDEX; "rename"@ALTER TABLE RENAME
DDL.ForeignKey: foreign_key_definition@ADD
DDL.IndexCols: index_column_list@*
DDL.IndexSpec.Clustered: clustered_opt@CREATE
DDL.IndexSpec.Included: include_columns_opt@ON
DDL.IndexSpec.Name: sql_id@ADD; sql_id@CONSTRAINT; sql_id@INDEX
DDL.IndexSpec.Options: index_option_opt@ON
DDL.IndexSpec.Partition: index_partition_opt@ON
DDL.IndexSpec.Primary: true@ALTER TABLE ONLY ADD CONSTRAINT PRIMARY KEY
DDL.IndexSpec.Type: sql_id@USING
DDL.IndexSpec.Unique: unique_opt@ADD; unique_opt@CREATE
DDL.IndexSpec.Where: nil@CREATE INDEX ON USING without where_expression_opt; nil@CREATE INDEX ON without where_expression_opt
DDL.IndexSpec.Where.Expr: where_expression_opt@ON; where_expression_opt@USING
DDL.IndexSpec.Where.Type: "where"@CREATE INDEX ON USING with where_expression_opt; "where"@CREATE INDEX ON with where_expression_opt
DDL.NewName: table_name@*
DDL.NewName.Name.v: strings.ToLower(table_name.Name.v)@ALTER VIEW
DDL.NewName.Qualifier: table_name.Qualifier@VIEW
DDL.Policy.Name: sql_id@POLICY
DDL.Policy.Permissive: policy_as_opt@ON
DDL.Policy.Scope: policy_for_opt@ON
DDL.Policy.To: sql_id_list@TO
DDL.Policy.Using: nil@CREATE POLICY ON TO without using_opt
DDL.Policy.Using.Expr: using_opt@TO
DDL.Policy.Using.Type: "where"@CREATE POLICY ON TO with using_opt
DDL.Policy.WithCheck: nil@CREATE POLICY ON TO without with_check_opt
DDL.Policy.WithCheck.Expr: with_check_opt@TO
DDL.Policy.WithCheck.Type: "where"@CREATE POLICY ON TO with with_check_opt
DDL.Table: table_name@ON; table_name@ONLY; table_name@TABLE
DDL.Table.Name.v: strings.ToLower(table_name.Name.v)@ALTER VIEW
DDL.Table.Qualifier: table_name.Qualifier@VIEW
DDL.TableSpec: table_spec
DDL.Trigger.Body: trigger_body@AS
DDL.Trigger.Body[]: trigger_statement@ROW
DDL.Trigger.Event: trigger_event@ON; trigger_event@TRIGGER
DDL.Trigger.Name: sql_id@TRIGGER
DDL.Trigger.TableName: table_name@ON
DDL.Trigger.Time: trigger_time@ON; trigger_time@TRIGGER
DDL.View.Action: "create view"@CREATE VIEW AS
DDL.View.Definition: select_statement@AS
DDL.View.Name.Name.v: strings.ToLower(table_name.Name.v)@CREATE VIEW AS
DDL.View.Name.Qualifier: table_name.Qualifier@VIEW
ForeignKeyDefinition.ConstraintName: sql_id_opt@CONSTRAINT
ForeignKeyDefinition.IndexColumns: sql_id_list@KEY
ForeignKeyDefinition.IndexName: sql_id_opt@KEY
ForeignKeyDefinition.NotForReplication: not_for_replication_opt; not_for_replication_opt@DELETE; not_for_replication_opt@UPDATE
ForeignKeyDefinition.OnDelete: reference_option@DELETE; zero@ON UPDATE
ForeignKeyDefinition.OnUpdate: reference_option@UPDATE; zero@ON DELETE
ForeignKeyDefinition.ReferenceColumns: sql_id_list@REFERENCES
ForeignKeyDefinition.ReferenceName.val: table_name.Name.v@REFERENCES
IdentityOpt.NotForReplication: true@NOT FOR REPLICATION
IndexColumn.Column: sql_id
IndexColumn.Column.val: KEY
IndexColumn.Direction: asc_desc_opt
IndexColumn.Length: length_opt; length_opt@KEY
IndexDefinition.Columns: index_column_list; index_column_list@KEY
IndexDefinition.Info: index_info
IndexDefinition.Info.Clustered: clustered_opt@KEY
IndexDefinition.Info.Name: sql_id@CONSTRAINT
IndexDefinition.Info.Primary: true@CONSTRAINT PRIMARY KEY
IndexDefinition.Info.Type: PRIMARY+" "+KEY@CONSTRAINT PRIMARY KEY
IndexDefinition.Info.Unique: true@CONSTRAINT PRIMARY KEY
IndexDefinition.Options: index_option_opt; index_option_opt@KEY
IndexDefinition.Partition: index_partition_opt; index_partition_opt@KEY
IndexInfo.Clustered: clustered_opt; clustered_opt@UNIQUE
IndexInfo.Fulltext: true@FULLTEXT
IndexInfo.Name.val: "PRIMARY"@PRIMARY KEY; ID@*
IndexInfo.Primary: true@PRIMARY KEY
IndexInfo.Spatial: true@SPATIAL
IndexInfo.Type: FULLTEXT; FULLTEXT+" "+index_or_key@FULLTEXT; PRIMARY+" "+KEY@PRIMARY KEY; SPATIAL+" "+index_or_key@SPATIAL; UNIQUE; UNIQUE+" "+index_or_key@UNIQUE; index_or_key
IndexInfo.Unique: true@PRIMARY KEY; true@UNIQUE
IndexOption.Name: FIRST; PARSER@WITH
IndexOption.Using: ID@USING
IndexOption.Value: on_off@*
IndexOption.Value.Type: 1@FILLFACTOR; 1@KEY_BLOCK_SIZE
IndexOption.Value.Val: INTEGRAL@FILLFACTOR; INTEGRAL@KEY_BLOCK_SIZE; STRING@COMMENT_KEYWORD; sql_id.val@PARSER
IndexPartition.Column: sql_id.val@ON
IndexPartition.Name: sql_id.val@ON
LengthScaleOption.Length.Type: 1@
LengthScaleOption.Length.Val: INTEGRAL
LengthScaleOption.Scale.Type: 1@
LengthScaleOption.Scale.Val: INTEGRAL
SQLVal.Type: 1@; 2@; 5@CURRENT_DATE; 5@CURRENT_TIME; 5@CURRENT_TIME with length_opt; 5@CURRENT_TIME without length_opt; 5@CURRENT_TIMESTAMP; 5@CURRENT_TIMESTAMP with length_opt; 5@CURRENT_TIMESTAMP without length_opt; 5@GETDATE; 5@NOW; 5@NULL; 6@BIT_LITERAL; 7@; 7@OFF; 7@ON
SQLVal.Val: "false"@ unless boolean_value; "false"@OFF; "true"@ if boolean_value; "true"@ON; BIT_LITERAL; CURRENT_DATE; CURRENT_TIME; CURRENT_TIMESTAMP; CURRENT_TIME without length_opt; CURRENT_TIMESTAMP without length_opt; CURRENT_TIME+"("+*length_opt.Val+")"@CURRENT_TIME with length_opt; CURRENT_TIMESTAMP+"("+*length_opt.Val+")"@CURRENT_TIMESTAMP with length_opt; FLOAT; GETDATE+"()"@GETDATE; INTEGRAL; NOW+"()"@NOW; NULL; STRING
Sequence.Cache.Type: 1@CACHE
Sequence.Cache.Val: INTEGRAL@CACHE
Sequence.Cycle: true@CYCLE
Sequence.IncrementBy.Type: 1@INCREMENT; 1@INCREMENT BY
Sequence.IncrementBy.Val: INTEGRAL@BY; INTEGRAL@INCREMENT
Sequence.MaxValue.Type: 1@MAXVALUE
Sequence.MaxValue.Val: INTEGRAL@MAXVALUE
Sequence.MinValue.Type: 1@MINVALUE
Sequence.MinValue.Val: INTEGRAL@MINVALUE
Sequence.NoCycle: true@NO CYCLE
Sequence.NoMaxValue: true@NO MAXVALUE
Sequence.NoMinValue: true@NO MINVALUE
Sequence.OwnedBy: "NONE"@OWNED BY NONE; table_id.v+"."+reserved_sql_id.val@OWNED BY
Sequence.StartWith.Type: 1@START; 1@START WITH
Sequence.StartWith.Val: INTEGRAL@START; INTEGRAL@WITH
TableIdent.v: ID; non_reserved_keyword; reserved_keyword
TableName.Name: reserved_table_id; table_id
TableName.Qualifier: table_id
TableSpec.Columns: table_column_list.Columns
TableSpec.Columns[]: column_definition
TableSpec.ForeignKeys: table_column_list.ForeignKeys
TableSpec.ForeignKeys[]: foreign_key_definition
TableSpec.Indexes: table_column_list.Indexes
TableSpec.Indexes[]: index_definition; primary_key_definition
TableSpec.Options: table_option_list
array_opt: false@; true@; true@ARRAY
asc_desc_opt: "asc"@; "asc"@ASC; "desc"@DESC
boolean_value: false@FALSE; true@TRUE
charset_opt: ""@; BINARY@SET; ID@SET
clustered_opt: false@NONCLUSTERED; true@; true@CLUSTERED
collate_opt: ""@; BINARY; ID@COLLATE
column_definition_type: column_definition_type
column_list: column_list
column_list[]: sql_id
column_list[].val: KEY
column_type: bool_type; char_type; spatial_type; time_type
create_statement: create_table_prefix
decimal_length_opt: zero@
default_definition: default_val@DEFAULT
default_val: current_timestamp
enum_values: enum_values
enum_values[]: "'"+STRING+"'"@
float_length_opt: zero@
foreign_key_definition: foreign_key_without_options
identity_behavior: ALWAYS; BY+" "+DEFAULT@BY DEFAULT
include_columns_opt: []@; column_list@INCLUDE
index_column_list: index_column_list
index_column_list[]: index_column
index_option_list: index_option_list
index_option_list[]: index_option
index_option_opt: []@; index_option_list; mssql_index_option_list@WITH
index_or_key: INDEX; KEY
index_partition_opt: nil@
length_opt: nil@
mssql_index_option_list: mssql_index_option_list
mssql_index_option_list[]: index_option
no_inherit_opt: false@; true@NO INHERIT
not_for_replication_opt: false@; true@NOT FOR REPLICATION
numeric_type: decimal_type
policy_as_opt: PERMISSIVE@AS; RESTRICTIVE@AS; []@
policy_for_opt: ALL@FOR; DELETE@FOR; INSERT@FOR; SELECT@FOR; UPDATE@FOR; []@
reserved_sql_id: sql_id
reserved_table_id: table_id
sequence_opt: sequence_opt; zero@
sql_id_list: sql_id_list
sql_id_list[]: sql_id
sql_id_opt: sql_id; zero@
table_column_list: table_column_list
table_opt_value: "'"+STRING+"'"@; INTEGRAL; reserved_sql_id.val
table_option: table_opt_value; table_option+" "+table_opt_value@; table_option+"="+table_opt_value@
table_option_list: " "+table_option@; ""@; table_option_list+", "+table_option@
table_spec: table_column_list
time_zone_opt: false@; false@WITHOUT TIME ZONE; true@WITH TIME ZONE
trigger_body: trigger_body
trigger_body[]: trigger_statement
trigger_event: DELETE; INSERT; UPDATE
trigger_statement: delete_statement; insert_statement; update_statement
trigger_time: AFTER; BEFORE
unique_opt: false@; true@UNIQUE
unsigned_opt: false@; true@UNSIGNED
using_opt: expression@USING; nil@
where_expression_opt: expression@WHERE; nil@
with_check_opt: expression@CHECK; nil@
zero_fill_opt: false@; true@ZEROFILL
`

// what may be said without effect, for every object alike
var grammarNoise = map[string]bool{
	"ignore_opt": true, "or_replace_opt": true, "not_exists_opt": true, "exists_opt": true, // how a statement behaves on an existing object, not what the object is
	"character_cast_opt": true, // of a default that is text in any case
	"equal_opt":          true, "to_opt": true, "index_opt": true, "force_eof": true, "ddl_force_eof": true, "openb": true, "closeb": true,
	"alter_object_type": true, "alter_object_type_rest": true, "non_add_drop_or_rename_operation": true, "alter_object_type_index": true, // statements refused later (C15)
}

var grammarRoots = []string{"create_statement", "alter_statement"}

// symbols whose derivations are no part of the description of an object
var grammarLeave = []string{"expression", "value_expression", "select_statement", "insert_statement", "update_statement", "delete_statement", "reserved_keyword", "non_reserved_keyword"}

type place struct {
	path    string
	origins []string
}

func places() (out []place, byPath map[string]*place) {
	byPath = map[string]*place{}
	for _, l := range strings.Split(strings.TrimSpace(grammarPlaces), "\n") {
		p, o, _ := strings.Cut(l, ": ")
		out = append(out, place{p, strings.Split(o, "; ")})
	}
	for i := range out {
		byPath[out[i].path] = &out[i]
	}
	return
}

func (pl *place) allows(pr *production, f flow, origin string) bool {
	for _, o := range pl.origins {
		if o == origin {
			return true
		}
		if b, ok := strings.CutSuffix(o, "@*"); ok {
			if s, _, _ := strings.Cut(origin, "@"); s == b {
				return true
			}
		}
		if o == "FIRST" {
			if k, ok := symbolOf(f.val); ok && k == 1 && f.g == True && isWord(pr.symbol(1)) {
				return true
			}
		}
	}
	return false
}

// constant tells a constant of the table, and the keywords that mean it.
func constantOrigin(o string) (string, bool) {
	v, w, ok := strings.Cut(o, "@")
	if !ok {
		return "", false
	}
	switch {
	case v == "true", v == "false", v == "nil", v == "zero", v == "[]", strings.HasPrefix(v, `"`) && strings.Count(v, `"`) == 2:
	case v != "" && strings.Trim(v, "0123456789") == "":
	default:
		return "", false
	}
	for _, c := range []string{" with ", " without ", " if ", " unless "} {
		if i := strings.Index(w, c); i >= 0 {
			w = w[:i]
		}
	}
	return w, true
}

func (c *Check) checkGrammar() {
	g, err := c.p.loadGrammar()
	if err != nil {
		c.require(false, "undecided", "grammar", "", "the semantic actions are not understood: "+err.Error())
		return
	}
	table, byPath := places()
	reach := g.reach(grammarRoots, grammarLeave)
	nprod, nflow, nmust, nval := 0, 0, 0, 0
	for i := range g.prods {
		pr := &g.prods[i]
		if !reach[pr.lhs] || grammarNoise[pr.lhs] {
			continue
		}
		nprod++
		m := g.made(i)
		if m.bad != "" {
			c.undecided = append(c.undecided, pr.String()+": "+m.bad)
		}
		roots := map[string]bool{pr.lhs: true}
		if fn := g.fn[i]; fn != nil {
			t := fn.Signature.Results().At(0).Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			roots[shortType(t.String())] = true
		}
		got := map[string][]string{}
		for _, f := range m.flows {
			o := pr.origin(f)
			got[f.path] = append(got[f.path], o)
			root, _, _ := strings.Cut(f.path, ".")
			roots[root] = true
			if p, ok := strings.CutSuffix(f.path, "[first]"); ok && byPath[p+"[]"] != nil {
				c.require(false, "order", p+"/"+pr.String(), pr.where(), fmt.Sprintf("%q puts a later element of %s before the earlier ones", pr.String(), p))
				continue
			}
			pl := byPath[f.path]
			if pl == nil {
				continue
			}
			nflow++
			c.require(pl.allows(pr, f, o), "place", f.path+"/"+pr.String(), pr.where(), fmt.Sprintf("%s is taken from %s in %q, which means something else", f.path, o, pr.String()))
		}
		for _, path := range keysOf(got) {
			p, ok := strings.CutSuffix(path, "[]")
			if !ok || byPath[p] == nil {
				continue
			}
			// the list so far
			for _, o := range byPath[p].origins {
				if s, _, _ := strings.Cut(o, "."); len(pr.rhs) > 1 && pr.rhs[0] == s && s == pr.lhs {
					c.require(has(got[p], o), "order", p+"/"+pr.String(), pr.where(), fmt.Sprintf("%q does not keep the elements that %s has already", pr.String(), p))
				}
			}
		}
		c.require(!m.uses[0], "stale", pr.String(), pr.where(), "the value of the rule holds what an earlier rule left behind")
		// the keywords that mean something
		w := pr.words()
		must := map[string][]string{}
		for _, pl := range table {
			root, _, _ := strings.Cut(strings.TrimSuffix(pl.path, "[]"), ".")
			if !roots[root] {
				continue
			}
			for _, o := range pl.origins {
				if ow, ok := constantOrigin(o); ok && ow == w && (w != "" || root == pr.lhs && len(pr.rhs) == 0) {
					must[pl.path] = append(must[pl.path], o)
				}
			}
		}
		for _, path := range keysOf(must) {
			nmust++
			ok := false
			for _, o := range got[path] {
				ok = ok || has(must[path], o)
			}
			c.require(ok, "keyword", path+"/"+pr.String(), pr.where(), fmt.Sprintf("%q does not set %s to %s", pr.String(), path, strings.Join(must[path], " or ")))
		}
		// everything that is said gets somewhere
		if len(pr.rhs) == 0 || g.types[pr.lhs] == "" {
			continue
		}
		for _, k := range g.valued(i) {
			if grammarNoise[pr.rhs[k-1]] || pr.rhs[k-1] == "clustered_opt" && has(pr.rhs, "USING") {
				continue // CLUSTERED and USING are of different dialects
			}
			nval++
			c.require(m.uses[k] || m.sets[k], "lost", fmt.Sprintf("%s/%s", pr.symbol(k), pr.String()), pr.where(), fmt.Sprintf("%s is parsed by %q and thrown away", pr.symbol(k), pr.String()))
		}
	}
	c.stats["rules of the grammar evaluated"] = nprod
	c.floor("values placed by the grammar", nflow, 300)
	c.floor("keywords with a meaning", nmust, 60)
	c.floor("symbols with a value", nval, 250)
}
