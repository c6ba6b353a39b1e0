package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------- expressions ----------

type Expr struct {
	op   string // lit, str, chr, id, sel, idx, slice, call, un, bin, cond, quant, let, in
	s    string
	args []*Expr
	vars []QVar
	pats [][]*Expr
	pos  string
}

type QVar struct{ name, typ string }

func (e *Expr) String() string {
	if e == nil {
		return ""
	}
	switch e.op {
	case "lit", "id":
		return e.s
	case "str":
		return strconv.Quote(e.s)
	case "sel":
		return e.args[0].String() + "." + e.s
	case "idx":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "slice":
		return e.args[0].String() + "[" + e.args[1].String() + ":" + e.args[2].String() + "]"
	case "call":
		var a []string
		for _, x := range e.args[1:] {
			a = append(a, x.String())
		}
		return e.args[0].String() + "(" + strings.Join(a, ", ") + ")"
	case "un":
		return e.s + e.args[0].String()
	case "bin":
		return "(" + e.args[0].String() + " " + e.s + " " + e.args[1].String() + ")"
	case "cond":
		return "(" + e.args[0].String() + " ? " + e.args[1].String() + " : " + e.args[2].String() + ")"
	case "quant":
		var v []string
		for _, q := range e.vars {
			v = append(v, q.name+" "+q.typ)
		}
		return "(" + e.s + " " + strings.Join(v, ", ") + " :: " + e.args[0].String() + ")"
	case "let":
		return "(let " + e.s + " = " + e.args[0].String() + " in " + e.args[1].String() + ")"
	}
	return "?" + e.op
}

type tok struct {
	k string // id, num, str, chr, op, eof
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	rs := src
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unterminated string in %q", src)
			}
			v, err := strconv.Unquote(rs[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", v})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(rs) && rs[j] != '\'' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			v, _, _, err := strconv.UnquoteChar(rs[i+1:j], '\'')
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"num", fmt.Sprint(int(v))})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(rs) && (rs[j] >= '0' && rs[j] <= '9' || rs[j] == 'x' || rs[j] >= 'a' && rs[j] <= 'f' || rs[j] >= 'A' && rs[j] <= 'F' || rs[j] == '_') {
				j++
			}
			out = append(out, tok{"num", rs[i:j]})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '@':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rune(rs[j])) || unicode.IsDigit(rune(rs[j])) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{"id", rs[i:j]})
			i = j
		default:
			ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "=", "&", "|", "^"}
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(rs[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("bad character %q in %q", c, src)
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

type parser struct {
	t   []tok
	i   int
	src string
}

func ParseExpr(src string) (e *Expr, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &parser{t: ts, src: src}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s in %q", s, src)
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.peek().s, src)
	}
	return e, nil
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return p.t[p.i].k != "str" && p.t[p.i].s == s && p.t[p.i].k != "eof"
}
func (p *parser) expect(s string) {
	if !p.is(s) {
		panic(fmt.Sprintf("expected %q, found %q", s, p.peek().s))
	}
	p.i++
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6,
	"+": 7, "-": 7, "|": 7, "^": 7, "*": 8, "/": 8, "%": 8, "<<": 8, ">>": 8, "&": 8}

func (p *parser) expr(min int) *Expr {
	var l *Expr
	if p.peek().k == "id" && (p.is("forall") || p.is("exists")) {
		q := p.next().s
		var vs []QVar
		var pend []string
		for {
			nm := p.next().s
			if p.is(",") {
				pend = append(pend, nm)
				p.next()
				continue
			}
			ty := p.typ()
			for _, x := range pend {
				vs = append(vs, QVar{x, ty})
			}
			pend = nil
			vs = append(vs, QVar{nm, ty})
			if p.is(",") {
				p.next()
				continue
			}
			break
		}
		p.expect("::")
		var pats [][]*Expr
		for p.is("{") {
			p.next()
			var ps []*Expr
			for !p.is("}") {
				ps = append(ps, p.expr(0))
				if p.is(",") {
					p.next()
				}
			}
			p.expect("}")
			pats = append(pats, ps)
		}
		b := p.expr(0)
		return &Expr{op: "quant", s: q, vars: vs, args: []*Expr{b}, pats: pats}
	}
	if p.peek().k == "id" && p.is("let") {
		p.next()
		nm := p.next().s
		p.expect("=")
		v := p.expr(3)
		p.expect("::")
		b := p.expr(0)
		return &Expr{op: "let", s: nm, args: []*Expr{v, b}}
	}
	l = p.unary()
	for {
		t := p.peek()
		if t.k == "str" || t.k == "num" {
			break
		}
		if t.s == "?" && min <= 3 {
			p.next()
			a := p.expr(0)
			p.expect(":")
			b := p.expr(3)
			l = &Expr{op: "cond", args: []*Expr{l, a, b}}
			continue
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min || t.k == "eof" {
			break
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{op: "bin", s: t.s, args: []*Expr{l, r}}
	}
	return l
}

func (p *parser) typ() string {
	var sb strings.Builder
	for {
		t := p.peek()
		switch {
		case t.s == "*" || t.s == "[" || t.s == "]" || t.s == ".":
			sb.WriteString(t.s)
			p.next()
			continue
		case t.k == "id":
			sb.WriteString(t.s)
			p.next()
			if p.is(".") || (t.s == "map" && p.is("[")) {
				continue
			}
			if strings.HasPrefix(sb.String(), "map[") && p.is("]") {
				continue
			}
		}
		break
	}
	return sb.String()
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*" || t.s == "&") {
		p.next()
		return &Expr{op: "un", s: t.s, args: []*Expr{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		return &Expr{op: "lit", s: t.s}
	case "str":
		return &Expr{op: "str", s: t.s}
	case "id":
		return &Expr{op: "id", s: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("unexpected %q", t.s))
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.peek().k != "op":
			return e
		case p.is("."):
			p.next()
			e = &Expr{op: "sel", s: p.next().s, args: []*Expr{e}}
		case p.is("["):
			p.next()
			var lo *Expr
			if !p.is(":") {
				lo = p.expr(0)
			}
			if p.is(":") {
				p.next()
				var hi *Expr
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, lo, hi}}
			} else {
				p.expect("]")
				e = &Expr{op: "idx", args: []*Expr{e, lo}}
			}
		case p.is("("):
			p.next()
			args := []*Expr{e}
			for !p.is(")") {
				args = append(args, p.expr(0))
				if !p.is(")") {
					p.expect(",")
				}
			}
			p.expect(")")
			e = &Expr{op: "call", args: args}
		default:
			return e
		}
	}
}

// ---------- contracts ----------

type Clause struct {
	label string
	e     *Expr
	src   string
	props []string
	line  string
}

type LoopSpec struct {
	inv      []*Clause
	dec      *Expr
	modifies []*Expr
	modAny   []string
	noframe  bool
	yields   []*Clause
	ghosts   []ghostUpd
	visits   bool
	exitAny  bool
}

type ghostUpd struct {
	name string
	e    *Expr
}

type Callback struct {
	param   string
	params  []string
	results []string
	req     []*Clause
	ens     []*Clause
	mod     []*Expr
}

type Contract struct {
	key      string
	ext      bool
	pkg      string
	file     string
	params   []string
	results  []string
	req      []*Clause
	ens      []*Clause
	ghostens []*Clause
	mod      []*Expr
	modAll   bool
	pure     bool
	trusted  bool // assumed, body not verified
	noreturn bool
	inlineOK bool
	mayPanic bool
	merge    bool // join the paths of a branch where they meet
	nilable  map[string]bool
	loops    map[int]*LoopSpec
	cbs      map[string]*Callback
	props    []string
	use      []string
	lets     []ghostUpd
	ghostIn  []ghostUpd
	returns  []ghostUpd // ghost updates at return, where the results are known
	assumes  []*Clause  // assumed at entry, not checked at calls (reported)
	starts   []ghostUpd // ghost updates of the goroutine that starts this function
	fresh    []string
	noverify bool // contract used at calls, body checked by bounded harness only
	why      string
	timeout  int
	holds    []*Expr
	iterates *IterSpec
	opts     map[string]string
	entry    bool
	usedAt   int
	skip     string
}

type IterSpec struct{ param string }

type FuncDecl struct {
	name  string
	args  []QVar
	ret   string
	pred  *Expr
	pkg   string
	names []string
}

type AxiomDecl struct {
	name   string
	e      *Expr
	lemma  bool
	induct string
	global bool
	pkg    string
	props  []string
	use    []string
	src    string
}

type GuardDecl struct {
	typ, field, lock string
	inv              *Expr
	pkg              string
}

type Specs struct {
	local     map[string]*Contract // package|key
	contracts map[string]*Contract
	funcs     map[string]*FuncDecl
	axioms    map[string]*AxiomDecl
	axOrder   []string
	ghosts    map[string]string
	guards    []*GuardDecl
	extern    []string
	files     []string
	sorts     map[string]bool
	monitors  map[string]*Monitor
	order     []string
	chans     map[string]*ChanInv
	onwrite   map[string]*OnWrite
	zeroinit  map[string]bool
	zeroTypes map[string][]string
	aux       map[string][]string
	perthread map[string]bool // counters that are 0 in a new goroutine
}

// OnWrite is ghost code executed with every store to a field.
type OnWrite struct {
	self, v, prev string
	upd           ghostUpd
	pkg           string
}

// Monitor is a lock invariant.
type Monitor struct {
	typ, lock string
	fields    []string
	content   map[string]bool // only the contents of the map in this field are guarded
	inv       []*Clause
	self      string
	pkg       string
}

type ChanInv struct {
	key  string // Type.field
	self string
	v    string
	inv  []*Clause
	pkg  string
}

func LoadSpecs(dir string) (*Specs, error) {
	sp := &Specs{contracts: map[string]*Contract{}, local: map[string]*Contract{}, funcs: map[string]*FuncDecl{}, axioms: map[string]*AxiomDecl{}, ghosts: map[string]string{}, sorts: map[string]bool{}, monitors: map[string]*Monitor{}, chans: map[string]*ChanInv{}, onwrite: map[string]*OnWrite{}, zeroinit: map[string]bool{}, zeroTypes: map[string][]string{}, aux: map[string][]string{}, perthread: map[string]bool{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.load(f); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		sp.files = append(sp.files, f)
	}
	return sp, nil
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

// load parses one contract file. Lines; a line ending in "\" or an indented
// continuation (starting with "|") continues the previous one.
func (sp *Specs) load(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var lines []string
	var nums, indents []int
	for i, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") || strings.HasPrefix(t, "//") {
			continue
		}
		if strings.HasPrefix(t, "|") && !strings.HasPrefix(t, "||") && len(lines) > 0 {
			lines[len(lines)-1] += " " + strings.TrimSpace(t[1:])
			continue
		}
		lines = append(lines, t)
		nums = append(nums, i+1)
		indents = append(indents, len(l)-len(strings.TrimLeft(l, " \t")))
	}
	var (
		pkg   string
		cur   *Contract
		loop  *LoopSpec
		cb    *Callback
		mon   *Monitor
		chi   *ChanInv
		props []string
	)
	nested := 0 // indentation of the open loop or callback block
	for li, l := range lines {
		if (cb != nil || loop != nil) && indents[li] <= nested {
			cb, loop = nil, nil
		}
		word, rest := l, ""
		if i := strings.IndexAny(l, " \t"); i >= 0 {
			word, rest = l[:i], strings.TrimSpace(l[i:])
		}
		word = strings.TrimSuffix(word, ":")
		local := false
		if word == "local" && strings.HasPrefix(rest, "extern ") {
			// an assumed contract for the functions of this package only
			word, rest, local = "extern", strings.TrimSpace(rest[len("extern "):]), true
		}
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("line %d: %s", nums[li], fmt.Sprintf(f, a...))
		}
		clause := func(src string) (*Clause, error) {
			c := &Clause{src: src, line: fmt.Sprintf("%s:%d", filepath.Base(file), nums[li])}
			// optional [label C01 C02]
			if strings.HasPrefix(src, "[") {
				j := strings.IndexByte(src, ']')
				for _, w := range strings.Fields(src[1:j]) {
					if len(w) == 3 && w[0] == 'C' && w[1] >= '0' && w[1] <= '9' {
						c.props = append(c.props, w)
					} else {
						c.label = w
					}
				}
				src = strings.TrimSpace(src[j+1:])
				c.src = src
			}
			e, err := ParseExpr(src)
			if err != nil {
				return nil, fail("%v", err)
			}
			c.e = e
			return c, nil
		}
		exprs := func(src string) ([]*Expr, error) {
			if src == "nothing" {
				return nil, nil
			}
			e, err := ParseExpr("tuple(" + src + ")")
			if err != nil {
				return nil, fail("%v", err)
			}
			return e.args[1:], nil
		}
		switch word {
		case "package":
			pkg = rest
			cur, loop, cb, mon, chi = nil, nil, nil, nil, nil
			props = nil
		case "props":
			if cur != nil {
				cur.props = strings.Fields(rest)
			} else {
				props = strings.Fields(rest)
			}
		case "fileprops":
			props = strings.Fields(rest)
		case "sort":
			sp.sorts[rest] = true
		case "func", "extern":
			// key(params) (results)
			loop, cb, mon, chi = nil, nil, nil, nil
			c := &Contract{pkg: pkg, file: file, loops: map[int]*LoopSpec{}, cbs: map[string]*Callback{}, nilable: map[string]bool{}, opts: map[string]string{}, props: props}
			s := rest
			// the key may itself start with "(*T).m"
			start := 0
			if strings.HasPrefix(s, "(") {
				start = strings.IndexByte(s, ')') + 1
			} else if i := strings.IndexByte(s, '('); i > 0 && s[i-1] == '.' {
				start = strings.IndexByte(s, ')') + 1
			}
			k := strings.IndexByte(s[start:], '(')
			if k < 0 {
				return fail("bad func header %q", s)
			}
			k += start
			c.key = strings.TrimSpace(s[:k])
			e := strings.IndexByte(s[k:], ')') + k
			c.params = splitNames(s[k+1 : e])
			r := strings.TrimSpace(s[e+1:])
			if r != "" {
				r = strings.TrimSuffix(strings.TrimPrefix(r, "("), ")")
				c.results = splitNames(r)
			}
			if word == "extern" {
				c.ext = true
				c.trusted = true
				c.pkg = ""
			} else {
				c.key = pkg + "." + c.key
			}
			if local {
				if sp.local[pkg+"|"+c.key] != nil {
					return fail("duplicate contract for %s", c.key)
				}
				sp.local[pkg+"|"+c.key] = c
				cur = c
				break
			}
			if sp.contracts[c.key] != nil {
				return fail("duplicate contract for %s", c.key)
			}
			sp.contracts[c.key] = c
			sp.order = append(sp.order, c.key)
			cur = c
		case "requires", "ensures", "invariant", "yields", "assumes":
			c, err := clause(rest)
			if err != nil {
				return err
			}
			switch {
			case chi != nil && word == "invariant":
				chi.inv = append(chi.inv, c)
			case mon != nil && word == "invariant":
				mon.inv = append(mon.inv, c)
			case word == "assumes":
				cur.assumes = append(cur.assumes, c)
			case word == "yields":
				loop.yields = append(loop.yields, c)
			case word == "invariant":
				if loop == nil {
					return fail("invariant outside a loop")
				}
				loop.inv = append(loop.inv, c)
			case cb != nil && word == "requires":
				cb.req = append(cb.req, c)
			case cb != nil && word == "ensures":
				cb.ens = append(cb.ens, c)
			case word == "requires":
				cur.req = append(cur.req, c)
			case word == "ensures":
				cur.ens = append(cur.ens, c)
			}
		case "modifies":
			if rest == "*" {
				cur.modAll = true
				continue
			}
			es, err := exprs(rest)
			if err != nil {
				return err
			}
			switch {
			case cb != nil:
				cb.mod = append(cb.mod, es...)
			case loop != nil:
				loop.modifies = append(loop.modifies, es...)
			default:
				cur.mod = append(cur.mod, es...)
			}
		case "havocs":
			loop.modAny = append(loop.modAny, splitNames(rest)...)
		case "noframe":
			loop.noframe = true
		case "decreases":
			e, err := ParseExpr(rest)
			if err != nil {
				return fail("%v", err)
			}
			loop.dec = e
		case "loop":
			cb = nil
			nested = indents[li]
			n, err := strconv.Atoi(strings.TrimSuffix(strings.Fields(rest)[0], ":"))
			if err != nil {
				return fail("%v", err)
			}
			loop = &LoopSpec{}
			cur.loops[n] = loop
		case "callback":
			nested = indents[li]
			loop = nil
			k := strings.IndexByte(rest, '(')
			e := strings.IndexByte(rest, ')')
			cb = &Callback{param: strings.TrimSpace(rest[:k]), params: splitNames(rest[k+1 : e])}
			r := strings.TrimSpace(rest[e+1:])
			if r != "" {
				cb.results = splitNames(strings.TrimSuffix(strings.TrimPrefix(r, "("), ")"))
			}
			cur.cbs[cb.param] = cb
		case "pure":
			cur.pure = true
		case "trusted":
			cur.trusted = true
			cur.why = rest
		case "bounded":
			cur.noverify = true
			cur.why = rest
		case "noreturn":
			cur.noreturn = true
		case "merge":
			cur.merge = true
		case "may_panic":
			cur.mayPanic = true
		case "nilable":
			for _, n := range splitNames(rest) {
				cur.nilable[n] = true
			}
		case "use":
			cur.use = append(cur.use, strings.Fields(rest)...)
		case "timeout":
			cur.timeout, _ = strconv.Atoi(rest)
		case "option":
			f := strings.Fields(rest)
			v := "1"
			if len(f) > 1 {
				v = strings.Join(f[1:], " ")
			}
			cur.opts[f[0]] = v
		case "let", "ghost", "starts", "returns":
			i := strings.IndexByte(rest, '=')
			if i < 0 {
				return fail("bad let")
			}
			e, err := ParseExpr(strings.TrimSpace(rest[i+1:]))
			if err != nil {
				return fail("%v", err)
			}
			g := ghostUpd{strings.TrimSpace(rest[:i]), e}
			if word == "returns" {
				cur.returns = append(cur.returns, g)
			} else if word == "starts" {
				cur.starts = append(cur.starts, g)
			} else if word == "let" {
				cur.lets = append(cur.lets, g)
			} else if loop != nil {
				loop.ghosts = append(loop.ghosts, g)
			} else {
				cur.ghostIn = append(cur.ghostIn, g)
			}
		case "function", "pred":
			loop, cb, cur, mon, chi = nil, nil, nil, nil, nil
			body := ""
			if word == "pred" {
				i := strings.Index(rest, "=")
				body = strings.TrimSpace(rest[i+1:])
				rest = strings.TrimSpace(rest[:i])
			}
			k := strings.IndexByte(rest, '(')
			e := strings.LastIndexByte(rest, ')')
			fd := &FuncDecl{name: strings.TrimSpace(rest[:k]), pkg: pkg, ret: strings.TrimSpace(rest[e+1:])}
			if word == "pred" {
				fd.names = splitNames(rest[k+1 : e])
				x, err := ParseExpr(body)
				if err != nil {
					return fail("%v", err)
				}
				fd.pred = x
			} else {
				var pend []string
				for _, a := range splitNames(rest[k+1 : e]) {
					f := strings.SplitN(a, " ", 2)
					if len(f) == 1 {
						pend = append(pend, f[0])
						continue
					}
					for _, x := range pend {
						fd.args = append(fd.args, QVar{x, strings.TrimSpace(f[1])})
					}
					pend = nil
					fd.args = append(fd.args, QVar{f[0], strings.TrimSpace(f[1])})
				}
			}
			if sp.funcs[fd.name] != nil {
				return fail("duplicate function %s", fd.name)
			}
			sp.funcs[fd.name] = fd
		case "axiom", "lemma":
			loop, cb, cur, mon, chi = nil, nil, nil, nil, nil
			i := strings.Index(rest, ":")
			if i < 0 {
				return fail("bad %s", word)
			}
			head := strings.Fields(rest[:i])
			e, err := ParseExpr(strings.TrimSpace(rest[i+1:]))
			if err != nil {
				return fail("%v", err)
			}
			ad := &AxiomDecl{name: head[0], e: e, lemma: word == "lemma", pkg: pkg, src: strings.TrimSpace(rest[i+1:])}
			for k := 1; k < len(head); k++ {
				switch head[k] {
				case "induction":
					ad.induct = head[k+1]
					k++
				case "global":
					ad.global = true
				case "use":
					ad.use = append(ad.use, head[k+1:]...)
					k = len(head)
				default:
					return fail("bad axiom attribute %q", head[k])
				}
			}
			if sp.axioms[ad.name] != nil {
				return fail("duplicate axiom %s", ad.name)
			}
			sp.axioms[ad.name] = ad
			sp.axOrder = append(sp.axOrder, ad.name)
		case "ghostvar":
			f := strings.Fields(rest)
			sp.ghosts[f[0]] = f[1]
			if n := len(f) - 1; n > 1 && strings.HasPrefix(f[n], "aux=") {
				// accounted for in these packages only; elsewhere a call may change it
				sp.aux[f[0]] = strings.Split(f[n][4:], ",")
				f = f[:n]
			}
			if len(f) > 2 && f[2] == "perthread" {
				sp.perthread[f[0]] = true
			}
			if len(f) > 2 && f[2] == "zeroinit" {
				// a ghost field: 0 for every object that is not allocated yet
				if len(f) > 3 {
					// the zero value for new objects of these types
					sp.zeroTypes[f[0]] = strings.Split(f[3], ",")
				} else {
					sp.zeroinit[f[0]] = true
				}
			}
		case "onwrite":
			// onwrite Type.field (self, v) $g = e
			k := strings.IndexByte(rest, '(')
			q := strings.IndexByte(rest, ')')
			i := strings.IndexByte(rest, '=')
			ns := splitNames(rest[k+1 : q])
			x, err := ParseExpr(strings.TrimSpace(rest[i+1:]))
			if err != nil {
				return fail("%v", err)
			}
			sp.onwrite[pkg+"."+strings.TrimSpace(rest[:k])] = &OnWrite{self: ns[0], v: ns[1], prev: ns[2], upd: ghostUpd{strings.TrimSpace(rest[q+1 : i]), x}, pkg: pkg}
		case "monitor":
			// monitor Type.lock guards f1, f2 self s
			loop, cb, cur, chi = nil, nil, nil, nil
			f := strings.Fields(rest)
			i := strings.LastIndexByte(f[0], '.')
			m := &Monitor{typ: f[0][:i], lock: f[0][i+1:], pkg: pkg, self: "self", content: map[string]bool{}}
			cont := false
			for _, x := range f[1:] {
				if x == "guards" || x == "contents" {
					cont = x == "contents"
					continue
				}
				if cont {
					m.content[strings.Trim(x, ",")] = true
				}
				m.fields = append(m.fields, strings.Trim(x, ","))
			}
			sp.monitors[pkg+"."+m.typ+"."+m.lock] = m
			mon = m
		case "chan":
			// chan Type.field (self, v)
			loop, cb, cur, mon = nil, nil, nil, nil
			k := strings.IndexByte(rest, '(')
			ns := splitNames(strings.Trim(rest[k:], "()"))
			ci := &ChanInv{key: pkg + "." + strings.TrimSpace(rest[:k]), self: ns[0], pkg: pkg, v: ns[len(ns)-1]}
			if strings.HasPrefix(rest, "of ") {
				// chan of ELEMTYPE (v): every channel of that element type
				ci.key = "of " + strings.TrimSpace(rest[3:k])
				ci.self = ""
			}
			sp.chans[ci.key] = ci
			chi = ci
		default:
			return fail("unknown directive %q", word)
		}
	}
	return nil
}
