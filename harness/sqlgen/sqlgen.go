// Package sqlgen generates programs of statement builder calls, and renders
// them with a reference model.
package sqlgen

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/effective-security/xdb/xsql"
	"pgregory.net/rapid"
)

// Op is one builder call.
type Op struct {
	Kind string
	Text string
	Strs []string
	Args []any
	N, M int
	Flag bool
	Rows [][]Cell
	Sub  *Prog
}

// Cell is one value of a row: an expression with arguments.
type Cell struct {
	Field string
	Expr  string // "" for a plain Set
	Args  []any
}

// Prog is a sequence of builder calls; the first one creates the builder.
type Prog struct {
	Dialect xsql.SQLDialect
	Ops     []Op
}

func (o Op) String() string {
	var sb strings.Builder
	sb.WriteString(o.Kind)
	sb.WriteString("(")
	if o.Text != "" {
		fmt.Fprintf(&sb, "%q", o.Text)
	}
	for _, s := range o.Strs {
		fmt.Fprintf(&sb, " %q", s)
	}
	if len(o.Args) > 0 {
		fmt.Fprintf(&sb, " %v", o.Args)
	}
	switch o.Kind {
	case "Paginate":
		fmt.Fprintf(&sb, " %d %d", o.N, o.M)
	case "UseNewLines", "Union":
		fmt.Fprintf(&sb, " %v", o.Flag)
	}
	for _, r := range o.Rows {
		fmt.Fprintf(&sb, " row%v", r)
	}
	if o.Sub != nil {
		sb.WriteString(" sub{" + o.Sub.String() + "}")
	}
	sb.WriteString(")")
	return sb.String()
}

func (p *Prog) String() string {
	ss := make([]string, len(p.Ops))
	for i, o := range p.Ops {
		ss[i] = o.String()
	}
	return p.Dialect.Provider() + ":" + strings.Join(ss, ".")
}

// Build runs the whole program against the real builder.
func (p *Prog) Build() xsql.Builder {
	var b xsql.Builder
	for i := range p.Ops {
		b = p.Step(b, i)
	}
	return b
}

// Step runs one call.
func (p *Prog) Step(b xsql.Builder, i int) xsql.Builder {
	return ApplyOp(p.Dialect, b, p.Ops[i])
}

// ApplyOp runs one call against the builder; b is nil for the first one.
// The lists passed belong to the caller, who uses them for something else afterwards.
func ApplyOp(d xsql.SQLDialect, b xsql.Builder, o Op) xsql.Builder {
	if len(o.Args) > 0 {
		o.Args = append(make([]any, 0, len(o.Args)+2), o.Args...)
		defer reuse(o.Args)
	}
	if len(o.Strs) > 0 {
		o.Strs = append(make([]string, 0, len(o.Strs)+2), o.Strs...)
		defer func() {
			for i := range o.Strs {
				o.Strs[i] = "reused"
			}
		}()
	}
	if b == nil {
		switch o.Kind {
		case "Select":
			return d.Select(o.Text, o.Args...)
		case "From":
			return d.From(o.Text, o.Args...)
		case "InsertInto":
			return d.InsertInto(o.Text)
		case "Update":
			return d.Update(o.Text)
		case "DeleteFrom":
			return d.DeleteFrom(o.Text)
		case "New":
			return d.New(o.Text, o.Args...)
		case "With":
			return d.With(o.Text, o.Sub.Build())
		}
		panic("invalid first call " + o.Kind)
	}
	switch o.Kind {
	case "Select":
		return b.Select(o.Text, o.Args...)
	case "From":
		return b.From(o.Text, o.Args...)
	case "Where":
		return b.Where(o.Text, o.Args...)
	case "WhereIn":
		return b.Where(o.Text).In(o.Args...)
	case "Having":
		return b.Having(o.Text, o.Args...)
	case "Join":
		return b.Join(o.Strs[0], o.Strs[1])
	case "LeftJoin":
		return b.LeftJoin(o.Strs[0], o.Strs[1])
	case "RightJoin":
		return b.RightJoin(o.Strs[0], o.Strs[1])
	case "FullJoin":
		return b.FullJoin(o.Strs[0], o.Strs[1])
	case "OrderBy":
		return b.OrderBy(o.Strs...)
	case "GroupBy":
		return b.GroupBy(o.Text)
	case "Limit":
		return b.Limit(o.Args[0])
	case "Offset":
		return b.Offset(o.Args[0])
	case "Paginate":
		return b.Paginate(o.N, o.M)
	case "Returning":
		return b.Returning(o.Text)
	case "Expr":
		return b.Expr(o.Text, o.Args...)
	case "Clause":
		return b.Clause(o.Text, o.Args...)
	case "SubQuery":
		return b.SubQuery(o.Strs[0], o.Strs[1], o.Sub.Build())
	case "Union":
		return b.Union(o.Flag, o.Sub.Build())
	case "With":
		return b.With(o.Text, o.Sub.Build())
	case "Set":
		return b.Set(o.Text, o.Args[0])
	case "SetExpr":
		return b.SetExpr(o.Text, o.Strs[0], o.Args...)
	case "Rows":
		for _, cells := range o.Rows {
			r := b.NewRow()
			for _, c := range cells {
				if c.Expr == "" {
					r = r.Set(c.Field, c.Args[0])
				} else {
					args := append(make([]any, 0, len(c.Args)+2), c.Args...)
					r = r.SetExpr(c.Field, c.Expr, args...)
					reuse(args)
				}
			}
		}
		return b
	case "UseNewLines":
		return b.UseNewLines(o.Flag)
	case "To":
		return b.To(o.Args...)
	case "Invalidate":
		b.Invalidate()
		return b
	case "String":
		_ = b.String()
		return b
	case "CloneAndClose":
		c := b.Clone()
		_ = c.String()
		c.Close()
		return b
	}
	panic("invalid call " + o.Kind)
}

func reuse(args []any) {
	for i := range args[:cap(args)] {
		args[:cap(args)][i] = "reused"
	}
}

// ---- reference model ----

// The order of the clauses of a statement.
const (
	pStart     = 1000
	pWith      = 2000
	pInsert    = 3000
	pOpen      = 3900
	pFields    = 4000
	pMid       = 4900
	pValues    = 5000
	pClose     = 5001
	pDelete    = 6000
	pUpdate    = 7000
	pSet       = 8000
	pSelect    = 9000
	pFrom      = 11000
	pWhere     = 12000
	pGroupBy   = 13000
	pHaving    = 14000
	pUnion     = 15000
	pOrderBy   = 16000
	pLimit     = 17000
	pOffset    = 18000
	pReturning = 19000
)

type clause struct {
	pos     int
	text    string
	hasExpr bool
	args    []any
}

// Model is a reference statement: a list of clauses in order.
type Model struct {
	clauses []*clause
	cur     int
	Dest    []any
}

func (m *Model) find(pos int) *clause {
	for _, c := range m.clauses {
		if c.pos == pos {
			return c
		}
	}
	return nil
}

func (m *Model) last() int {
	l := 0
	for _, c := range m.clauses {
		if c.pos > l {
			l = c.pos
		}
	}
	return l
}

// clauseAt returns the clause at the position, and creates it with the keyword.
func (m *Model) clauseAt(pos int, keyword string) *clause {
	m.cur = pos
	if c := m.find(pos); c != nil {
		return c
	}
	n := &clause{pos: pos, text: keyword}
	at := len(m.clauses)
	for i, c := range m.clauses {
		if c.pos > pos {
			at = i
			break
		}
	}
	m.clauses = append(m.clauses, nil)
	copy(m.clauses[at+1:], m.clauses[at:])
	m.clauses[at] = n
	return n
}

func (m *Model) expr(pos int, keyword, text, sep string, args []any) {
	c := m.clauseAt(pos, keyword)
	switch {
	case c.hasExpr:
		c.text += sep + text
	case c.text == "":
		c.text = text
	default:
		c.text += " " + text
	}
	c.hasExpr = true
	c.args = append(c.args, args...)
}

func (m *Model) setSingle(pos int, keyword string, args []any) {
	c := m.clauseAt(pos, keyword)
	c.args = append([]any(nil), args...)
}

// Apply applies one call to the model.
func (m *Model) Apply(o Op) {
	switch o.Kind {
	case "New":
		c := m.clauseAt(pSelect, o.Text)
		c.args = append(c.args, o.Args...)
	case "Select":
		m.expr(pSelect, "SELECT", o.Text, ", ", o.Args)
	case "From":
		m.expr(pFrom, "FROM", o.Text, ", ", o.Args)
	case "InsertInto":
		m.expr(pInsert, "INSERT INTO", o.Text, ", ", nil)
		m.clauseAt(pOpen, "(")
		m.clauseAt(pMid, ") VALUES (")
		m.clauseAt(pClose, ")")
		m.cur = pFields
	case "Update":
		m.expr(pUpdate, "UPDATE", o.Text, ", ", nil)
	case "DeleteFrom":
		m.expr(pDelete, "DELETE FROM", o.Text, ", ", nil)
	case "Where":
		m.expr(pWhere, "WHERE", o.Text, " AND ", o.Args)
	case "WhereIn":
		m.expr(pWhere, "WHERE", o.Text, " AND ", nil)
		q := make([]string, len(o.Args))
		for i := range q {
			q[i] = "?"
		}
		m.expr(pWhere, "", "IN ("+strings.Join(q, ",")+")", " ", o.Args)
	case "Having":
		m.expr(pHaving, "HAVING", o.Text, " AND ", o.Args)
	case "Join", "LeftJoin", "RightJoin", "FullJoin":
		kw := map[string]string{"Join": "JOIN ", "LeftJoin": "LEFT JOIN ", "RightJoin": "RIGHT JOIN ", "FullJoin": "FULL JOIN "}[o.Kind]
		m.expr(pFrom, "", kw+o.Strs[0]+" ON ("+o.Strs[1]+")", " ", nil)
	case "OrderBy":
		m.expr(pOrderBy, "ORDER BY", strings.Join(o.Strs, ", "), ", ", nil)
	case "GroupBy":
		m.expr(pGroupBy, "GROUP BY", o.Text, ", ", nil)
	case "Limit":
		m.setSingle(pLimit, "LIMIT ?", o.Args)
	case "Offset":
		m.setSingle(pOffset, "OFFSET ?", o.Args)
	case "Paginate":
		page, size := max(o.N, 1), max(o.M, 1)
		if page > 1 || m.find(pOffset) != nil {
			m.setSingle(pOffset, "OFFSET ?", []any{(page - 1) * size})
		}
		m.setSingle(pLimit, "LIMIT ?", []any{size})
	case "Returning":
		m.expr(pReturning, "RETURNING", o.Text, ", ", nil)
	case "Expr":
		m.expr(m.cur, "", o.Text, ", ", o.Args)
	case "Clause":
		p := pStart
		if len(m.clauses) > 0 {
			p = m.last() + 100
		}
		c := m.clauseAt(p, o.Text)
		c.args = append(c.args, o.Args...)
	case "SubQuery":
		s := o.Sub.Model()
		sep := ", "
		if m.cur == pWhere || m.cur == pHaving {
			sep = " AND "
		}
		m.expr(m.cur, "", o.Strs[0]+s.SQL()+o.Strs[1], sep, s.Args())
	case "With":
		s := o.Sub.Model()
		m.expr(pWith, "WITH", o.Text+" AS ("+s.SQL()+")", ", ", s.Args())
	case "Union":
		s := o.Sub.Model()
		p := pUnion
		if l := m.last(); l >= p {
			p = l + 10
		}
		kw := "UNION "
		if o.Flag {
			kw = "UNION ALL "
		}
		c := m.clauseAt(p, kw+s.SQL())
		c.args = append(c.args, s.Args()...)
	case "Set":
		m.set(o.Text, "?", o.Args)
	case "SetExpr":
		m.set(o.Text, o.Strs[0], o.Args)
	case "Rows":
		for _, cells := range o.Rows {
			first := m.find(pValues) == nil
			if !first {
				m.expr(pValues, "", " ", " ), (", nil)
			}
			for i, c := range cells {
				e := c.Expr
				if e == "" {
					e = "?"
				}
				sep := ", "
				if first {
					m.expr(pFields, "", c.Field, ", ", nil)
				} else if i == 0 {
					sep = ""
				}
				m.expr(pValues, "", e, sep, c.Args)
			}
		}
	case "To":
		m.Dest = append(m.Dest, o.Args...)
	case "UseNewLines", "Invalidate", "String", "CloneAndClose":
	default:
		panic("invalid call " + o.Kind)
	}
}

func (m *Model) set(field, e string, args []any) {
	switch {
	case m.find(pInsert) != nil:
		m.expr(pFields, "", field, ", ", nil)
		m.expr(pValues, "", e, ", ", args)
	case m.find(pUpdate) != nil:
		m.expr(pSet, "SET", field+"="+e, ", ", args)
	}
}

// SQL renders the statement, with ? placeholders and \? as it is.
func (m *Model) SQL() string {
	ss := make([]string, len(m.clauses))
	for i, c := range m.clauses {
		ss[i] = c.text
	}
	return strings.Trim(strings.Join(ss, " "), "\n\r\t ")
}

// Clauses returns the number of clauses.
func (m *Model) Clauses() int { return len(m.clauses) }

// Args returns the arguments in order.
func (m *Model) Args() []any {
	var res []any
	for _, c := range m.clauses {
		res = append(res, c.args...)
	}
	return res
}

// Model runs the program on the model.
func (p *Prog) Model() *Model {
	m := &Model{}
	for _, o := range p.Ops {
		m.Apply(o)
	}
	return m
}

// ToPg converts ? to $1.. and \? to ?.
func ToPg(s string) string {
	var sb strings.Builder
	n := 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s) && s[i+1] == '?':
			sb.WriteByte('?')
			i++
		case s[i] == '?':
			n++
			sb.WriteString("$" + strconv.Itoa(n))
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

// Render renders the model for the dialect.
func (m *Model) Render(d xsql.SQLDialect) string {
	if d.Provider() == "postgres" {
		return ToPg(m.SQL())
	}
	return m.SQL()
}

// Norm collapses white space outside of quoted strings.
func Norm(s string) string {
	var sb strings.Builder
	var quote byte
	ws := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if quote == 0 && (c == ' ' || c == '\n' || c == '\t' || c == '\r') {
			ws = true
			continue
		}
		if ws {
			if sb.Len() > 0 {
				sb.WriteByte(' ')
			}
			ws = false
		}
		sb.WriteByte(c)
		if quote != 0 {
			if c == quote {
				quote = 0
			}
		} else if c == '\'' || c == '"' {
			quote = c
		}
	}
	return sb.String()
}

// ---- generators ----

// Gen generates programs; every fragment and every argument is unique,
// unless Tiny is set.
type Gen struct {
	T *rapid.T
	// Tiny makes fragments of a small alphabet, so that programs share text.
	Tiny bool
	// Safe leaves out escapes.
	Safe bool
	// Placeholder, if set, leaves out arguments
	NoArgs  bool
	Dialect []xsql.SQLDialect
	counter int
}

// Dialects are all of the dialects.
var Dialects = []xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer}

func (g *Gen) next() int { g.counter++; return g.counter }

func (g *Gen) n(label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.T, label) }

func (g *Gen) pick(label string, ss ...string) string { return rapid.SampledFrom(ss).Draw(g.T, label) }

func (g *Gen) bool(label string) bool { return rapid.Bool().Draw(g.T, label) }

func (g *Gen) arg() any {
	k := g.next()
	switch k % 5 {
	case 0:
		if k%35 == 0 {
			return nil
		}
		return "s" + strconv.Itoa(k)
	case 1:
		return float64(k) + 0.5
	case 2:
		return uint64(k)
	default:
		return k
	}
}

func (g *Gen) args(n int) []any {
	var res []any
	for range n {
		res = append(res, g.arg())
	}
	return res
}

// frag makes an expression with a unique marker m<N>, and its arguments:
// every placeholder of the fragment follows the marker "m<N>_<i>:".
func (g *Gen) frag() (string, []any) {
	if g.Tiny {
		t := g.pick("frag", "a", "b", "a, b", "c", "a AND b", "x = ?", "?")
		var args []any
		if strings.Contains(t, "?") {
			args = []any{g.arg()}
		}
		return t, args
	}
	k := g.next()
	shape := g.n("shape", 0, 11)
	np := 0
	if !g.NoArgs {
		np = g.pickWeighted()
	}
	args := g.args(np)
	ph := make([]string, np)
	for i := range ph {
		ph[i] = fmt.Sprintf("m%d_%d:?", k, i)
	}
	base := fmt.Sprintf("m%d", k)
	list := strings.Join(ph, " + ")
	var s string
	switch {
	case shape == 0 && !g.Safe:
		s = base + ` \? 'k' ` + list
	case shape == 1 && !g.Safe:
		s = base + ` 'it''s \?  x' ` + list + ` \?| y`
	case shape == 2:
		s = "f(" + base + ", " + list + ") é世界"
	case shape == 3:
		s = base + ` = "Q  c" ` + list
	case shape == 4 && np > 0:
		s = list
	case shape == 5 && np > 0:
		s = list + " AS " + base
	case shape == 6 && !g.Safe && np > 0:
		s = list + `\?`
	case shape == 10:
		// back slashes which are not escapes
		s = base + ` '\d+\\w' ` + list + ` ESCAPE '\'`
	case shape == 11:
		s = base + ` \a ` + list + ` \é \`
	case shape == 7:
		s = "(SELECT 1 FROM " + base + " WHERE " + base + " > 0 " + list + ")"
	default:
		s = base + " " + list
	}
	return strings.Trim(s, " "), args
}

func (g *Gen) pickWeighted() int {
	return rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 3}).Draw(g.T, "nargs")
}

func (g *Gen) plain() string {
	if g.Tiny {
		return g.pick("plain", "a", "b", "a, b", "c", "b, c", "d")
	}
	k := g.next()
	switch g.n("pshape", 0, 4) {
	case 0:
		return fmt.Sprintf("m%d DESC", k)
	case 1:
		if !g.Safe {
			return fmt.Sprintf(`m%d \? 'x'`, k)
		}
		return fmt.Sprintf("m%d", k)
	case 2:
		return fmt.Sprintf("LOWER(m%d)", k)
	default:
		return fmt.Sprintf("m%d", k)
	}
}

func (g *Gen) table() string {
	if g.Tiny {
		return g.pick("table", "t", "u", "t, u")
	}
	k := g.next()
	return g.pick("table", fmt.Sprintf("t%d", k), fmt.Sprintf("public.t%d AS x", k), fmt.Sprintf(`"T %d"`, k))
}

// Prog generates a program; depth limits nested queries.
func (g *Gen) Prog(depth int) *Prog {
	ds := g.Dialect
	if ds == nil {
		ds = Dialects
	}
	p := &Prog{Dialect: ds[g.n("dialect", 0, len(ds)-1)]}
	switch g.pick("stmt", "select", "select", "select", "insert", "update", "delete", "raw") {
	case "select":
		g.selectProg(p, depth)
	case "insert":
		g.insertProg(p, depth)
	case "update":
		g.updateProg(p, depth)
	case "delete":
		g.deleteProg(p, depth)
	default:
		g.rawProg(p, depth)
	}
	return p
}

// Select generates a SELECT program.
func (g *Gen) Select(depth int) *Prog {
	ds := g.Dialect
	if ds == nil {
		ds = Dialects
	}
	p := &Prog{Dialect: ds[g.n("dialect", 0, len(ds)-1)]}
	g.selectProg(p, depth)
	if g.n("rendered", 0, 2) == 0 {
		// rendered before it is used, say for a log
		p.add(Op{Kind: "String"})
	}
	return p
}

func (g *Gen) maxOps() int {
	m := rapid.SampledFrom([]int{3, 6, 6, 14}).Draw(g.T, "maxops")
	if m == 14 && !g.Tiny && g.n("long", 0, 15) == 3 {
		m = 150
	}
	return m
}

func (p *Prog) add(o Op) { p.Ops = append(p.Ops, o) }

func (g *Gen) selectProg(p *Prog, depth int) {
	first := g.pick("first", "From", "Select", "Select", "With")
	if first == "With" && depth == 0 {
		first = "From"
	}
	switch first {
	case "With":
		p.add(Op{Kind: "With", Text: g.cte(), Sub: g.Select(depth - 1)})
	case "From":
		p.add(Op{Kind: "From", Text: g.table()})
	default:
		s, a := g.frag()
		p.add(Op{Kind: "Select", Text: s, Args: a})
	}
	kinds := []string{"Select", "Select", "From", "Where", "Where", "WhereIn", "Having", "Join", "OrderBy", "GroupBy", "Limit", "Offset", "Paginate", "Expr", "Clause", "UseNewLines", "String", "Invalidate", "CloneAndClose", "To"}
	if depth > 0 {
		kinds = append(kinds, "SubQuery", "SubQuery", "With", "Union")
	}
	g.body(p, depth, kinds)
}

func (g *Gen) cte() string {
	if g.Tiny {
		return g.pick("cte", "w", "v")
	}
	return fmt.Sprintf("cte%d", g.next())
}

func (g *Gen) insertProg(p *Prog, depth int) {
	p.add(Op{Kind: "InsertInto", Text: g.table()})
	if g.bool("multirow") {
		p.add(Op{Kind: "Rows", Rows: g.rows()})
		g.body(p, depth, []string{"Returning", "Clause", "UseNewLines", "String", "CloneAndClose"})
	} else {
		g.body(p, depth, []string{"Set", "Set", "Set", "SetExpr", "Returning", "Clause", "UseNewLines", "String", "CloneAndClose"})
	}
}

func (g *Gen) rows() [][]Cell {
	nc, nr := g.n("cols", 1, 4), g.n("rows", 1, 5)
	if !g.Tiny && g.n("many", 0, 63) == 7 {
		nc, nr = g.n("cols", 1, 30), g.n("rows", 20, 60)
	}
	fields := make([]string, nc)
	for i := range fields {
		fields[i] = fmt.Sprintf("c%d", g.next())
	}
	var rows [][]Cell
	for range nr {
		var cells []Cell
		for _, f := range fields {
			if g.n("cell", 0, 3) == 0 {
				s, a := g.frag()
				cells = append(cells, Cell{Field: f, Expr: s, Args: a})
			} else {
				cells = append(cells, Cell{Field: f, Args: []any{g.arg()}})
			}
		}
		rows = append(rows, cells)
	}
	return rows
}

func (g *Gen) updateProg(p *Prog, depth int) {
	p.add(Op{Kind: "Update", Text: g.table()})
	kinds := []string{"Set", "Set", "SetExpr", "Where", "WhereIn", "From", "Returning", "Clause", "UseNewLines", "String"}
	if depth > 0 {
		kinds = append(kinds, "With", "SubQuery")
	}
	g.body(p, depth, kinds)
}

func (g *Gen) deleteProg(p *Prog, depth int) {
	p.add(Op{Kind: "DeleteFrom", Text: g.table()})
	kinds := []string{"Where", "Where", "WhereIn", "Returning", "Clause", "UseNewLines", "String"}
	if depth > 0 {
		kinds = append(kinds, "With", "SubQuery")
	}
	g.body(p, depth, kinds)
}

func (g *Gen) rawProg(p *Prog, depth int) {
	s := "VERB"
	var args []any
	if !g.Tiny {
		var f string
		f, args = g.frag()
		s = "VERB " + f
	}
	p.add(Op{Kind: "New", Text: s, Args: args})
	g.body(p, depth, []string{"Expr", "Expr", "From", "Where", "Clause", "UseNewLines"})
}

// body adds calls; cur tracks which clause Expr and SubQuery would extend.
func (g *Gen) body(p *Prog, depth int, kinds []string) {
	n := g.n("ops", 0, g.maxOps())
	clauses := 0
	hasFrom := false
	cur := ""
	for _, o := range p.Ops {
		hasFrom = hasFrom || o.Kind == "From"
		cur = o.Kind
	}
	for range n {
		k := g.pick("op", kinds...)
		o := Op{Kind: k}
		switch k {
		case "Select", "From", "Where", "Having":
			o.Text, o.Args = g.frag()
			hasFrom = hasFrom || k == "From"
			cur = k
		case "WhereIn":
			o.Text = g.plain()
			if g.Tiny {
				o.Text = "a"
			}
			in := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4, 40}).Draw(g.T, "in")
			if !g.Tiny && in == 40 && g.n("large", 0, 31) == 7 {
				in = rapid.SampledFrom([]int{257, 300, 1100}).Draw(g.T, "many")
			}
			o.Args = g.args(in)
			cur = "Where"
		case "Join":
			if !hasFrom {
				continue
			}
			o.Kind = g.pick("join", "Join", "LeftJoin", "RightJoin", "FullJoin")
			o.Strs = []string{g.table(), g.plain()}
			cur = "From"
		case "OrderBy":
			for range g.n("orders", 1, 3) {
				o.Strs = append(o.Strs, g.plain())
			}
			cur = k
		case "GroupBy", "Returning":
			o.Text = g.plain()
			cur = k
		case "Limit", "Offset":
			o.Args = g.args(1)
			if g.n("none", 0, 9) == 0 {
				o.Args = []any{rapid.SampledFrom([]any{nil, 0, -1}).Draw(g.T, "number")}
			}
			cur = ""
		case "Paginate":
			o.N, o.M = g.n("page", -1, 4), g.n("size", -1, 50)
			if g.n("large", 0, 3) == 0 {
				o.N, o.M = rapid.SampledFrom([]int{1, 3, 70000, 1 << 32}).Draw(g.T, "page"), rapid.SampledFrom([]int{1, 1500, 100000, 1 << 28}).Draw(g.T, "size")
			}
			cur = ""
		case "Expr":
			switch cur {
			case "Select", "From", "GroupBy", "OrderBy", "Returning", "Clause", "New":
			default:
				continue
			}
			o.Text, o.Args = g.frag()
		case "Clause":
			if clauses >= 7 {
				continue
			}
			clauses++
			o.Text, o.Args = g.frag()
			cur = k
		case "SubQuery":
			switch cur {
			case "Select", "From", "Where", "Having":
			default:
				continue
			}
			o.Strs = []string{g.pick("prefix", "(", "EXISTS (", "m_x IN (", ""), g.pick("suffix", ")", ") AS sq", "")}
			o.Sub = g.Select(depth - 1)
		case "With":
			o.Text, o.Sub = g.cte(), g.Select(depth-1)
			cur = ""
		case "Union":
			o.Flag, o.Sub = g.bool("all"), g.Select(depth-1)
			cur = ""
		case "Set":
			o.Text, o.Args = fmt.Sprintf("c%d", g.next()), g.args(1)
			cur = ""
		case "SetExpr":
			var e string
			e, o.Args = g.frag()
			o.Text, o.Strs = fmt.Sprintf("c%d", g.next()), []string{e}
			cur = ""
		case "UseNewLines":
			o.Flag = g.bool("nl")
		case "To":
			n := g.n("dest", 1, 2)
			if g.n("many", 0, 31) == 7 {
				n = rapid.SampledFrom([]int{17, 40, 70, 260}).Draw(g.T, "dests")
			}
			for range n {
				v := g.next()
				o.Args = append(o.Args, &v)
			}
		}
		p.add(o)
	}
}
