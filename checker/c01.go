package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// C01: the built-in tables. The package initialiser is abstractly interpreted
// (constant propagation through composite literals and helper calls) and the
// resulting rule tables are compared, in a normal form, with the RFC text.

// rfcCore is RFC 5234 appendix B.1.
const rfcCore = `
ALPHA  = %x41-5A / %x61-7A
BIT    = "0" / "1"
CHAR   = %x01-7F
CR     = %x0D
CRLF   = CR LF
CTL    = %x00-1F / %x7F
DIGIT  = %x30-39
DQUOTE = %x22
HEXDIG = DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
HTAB   = %x09
LF     = %x0A
LWSP   = *(WSP / CRLF WSP)
OCTET  = %x00-FF
SP     = %x20
VCHAR  = %x21-7E
WSP    = SP / HTAB
`

// rfcMeta is RFC 5234 section 4 with RFC 7405 and errata 2968 and 3076.
const rfcMeta = `
rulelist = 1*( rule / (*WSP c-nl) )
rule = rulename defined-as elements c-nl
rulename = ALPHA *(ALPHA / DIGIT / "-")
defined-as = *c-wsp ("=" / "=/") *c-wsp
elements = alternation *WSP
c-wsp = WSP / (c-nl WSP)
c-nl = comment / CRLF
comment = ";" *(WSP / VCHAR) CRLF
alternation = concatenation *(*c-wsp "/" *c-wsp concatenation)
concatenation = repetition *(1*c-wsp repetition)
repetition = [repeat] element
repeat = 1*DIGIT / (*DIGIT "*" *DIGIT)
element = rulename / group / option / char-val / num-val / prose-val
group = "(" *c-wsp alternation *c-wsp ")"
option = "[" *c-wsp alternation *c-wsp "]"
char-val = case-insensitive-string / case-sensitive-string
case-insensitive-string = [ "%i" ] quoted-string
case-sensitive-string = "%s" quoted-string
quoted-string = DQUOTE *(%x20-21 / %x23-7E) DQUOTE
num-val = "%" (bin-val / dec-val / hex-val)
bin-val = "b" 1*BIT [ 1*("." 1*BIT) / ("-" 1*BIT) ]
dec-val = "d" 1*DIGIT [ 1*("." 1*DIGIT) / ("-" 1*DIGIT) ]
hex-val = "x" 1*HEXDIG [ 1*("." 1*HEXDIG) / ("-" 1*HEXDIG) ]
prose-val = "<" *(%x20-3D / %x3F-7E) ">"
`

// nf is a grammar expression in normal form.
type nf struct {
	op       string // cls seq alt rep ref prose
	set      [][2]int64
	kids     []*nf
	min, max int64 // rep; max -1: unbounded
	name     string
}

func (n *nf) String() string {
	switch n.op {
	case "cls":
		var s []string
		for _, r := range n.set {
			s = append(s, fmt.Sprintf("%x-%x", r[0], r[1]))
		}
		return "{" + strings.Join(s, ",") + "}"
	case "ref":
		return n.name
	case "rep":
		return fmt.Sprintf("%d*%d(%s)", n.min, n.max, n.kids[0])
	case "seq", "alt":
		var s []string
		for _, k := range n.kids {
			s = append(s, k.String())
		}
		return n.op + "(" + strings.Join(s, " ") + ")"
	}
	return n.op
}

func nfCls(rs ...[2]int64) *nf {
	sort.Slice(rs, func(i, j int) bool { return rs[i][0] < rs[j][0] })
	var out [][2]int64
	for _, r := range rs {
		if r[0] > r[1] {
			continue
		}
		if n := len(out); n > 0 && r[0] <= out[n-1][1]+1 {
			out[n-1][1] = max(out[n-1][1], r[1])
			continue
		}
		out = append(out, r)
	}
	return &nf{op: "cls", set: out}
}

func nfSeq(ks ...*nf) *nf {
	var out []*nf
	for _, k := range ks {
		if k.op == "seq" {
			out = append(out, k.kids...)
		} else {
			out = append(out, k)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return &nf{op: "seq", kids: out}
}

func nfAlt(ks ...*nf) *nf {
	var out []*nf
	var cls [][2]int64
	for _, k := range ks {
		switch k.op {
		case "alt":
			for _, x := range k.kids {
				if x.op == "cls" {
					cls = append(cls, x.set...)
				} else {
					out = append(out, x)
				}
			}
		case "cls":
			cls = append(cls, k.set...)
		default:
			out = append(out, k)
		}
	}
	if len(cls) > 0 {
		out = append(out, nfCls(cls...))
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return &nf{op: "alt", kids: out}
}

func nfRep(min, max int64, k *nf) *nf {
	if min == 1 && max == 1 {
		return k
	}
	return &nf{op: "rep", min: min, max: max, kids: []*nf{k}}
}

func nfLit(rs []rune, sensitive bool) *nf {
	var ks []*nf
	for _, r := range rs {
		a := int64(r)
		c := [][2]int64{{a, a}}
		if !sensitive {
			if r >= 'a' && r <= 'z' {
				c = append(c, [2]int64{a - 32, a - 32})
			} else if r >= 'A' && r <= 'Z' {
				c = append(c, [2]int64{a + 32, a + 32})
			}
		}
		ks = append(ks, nfCls(c...))
	}
	return nfSeq(ks...)
}

// parseSpec reads the RFC text above (one rule per line).
func parseSpec(text string) map[string]*nf {
	out := map[string]*nf{}
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		i := strings.Index(l, "=")
		p := &specParser{s: l[i+1:]}
		out[strings.TrimSpace(l[:i])] = p.alt()
	}
	return out
}

type specParser struct {
	s string
	i int
}

func (p *specParser) ws() {
	for p.i < len(p.s) && p.s[p.i] == ' ' {
		p.i++
	}
}

func (p *specParser) peek() byte {
	p.ws()
	if p.i >= len(p.s) {
		return 0
	}
	return p.s[p.i]
}

func (p *specParser) alt() *nf {
	ks := []*nf{p.cat()}
	for p.peek() == '/' {
		p.i++
		ks = append(ks, p.cat())
	}
	return nfAlt(ks...)
}

func (p *specParser) cat() *nf {
	var ks []*nf
	for {
		switch c := p.peek(); c {
		case 0, '/', ')', ']':
			return nfSeq(ks...)
		}
		ks = append(ks, p.rep())
	}
}

func (p *specParser) num() (int64, bool) {
	j := p.i
	for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
		p.i++
	}
	if j == p.i {
		return 0, false
	}
	v, _ := strconv.ParseInt(p.s[j:p.i], 10, 64)
	return v, true
}

func (p *specParser) rep() *nf {
	p.ws()
	min, max := int64(1), int64(1)
	a, ok := p.num()
	if ok {
		min, max = a, a
	}
	if p.i < len(p.s) && p.s[p.i] == '*' {
		p.i++
		if !ok {
			min = 0
		}
		max = -1
		if b, ok := p.num(); ok {
			max = b
		}
	}
	return nfRep(min, max, p.elem())
}

func (p *specParser) elem() *nf {
	switch c := p.peek(); {
	case c == '(':
		p.i++
		n := p.alt()
		p.ws()
		p.i++
		return n
	case c == '[':
		p.i++
		n := p.alt()
		p.ws()
		p.i++
		return nfRep(0, 1, n)
	case c == '"':
		j := strings.IndexByte(p.s[p.i+1:], '"')
		lit := p.s[p.i+1 : p.i+1+j]
		p.i += j + 2
		return nfLit([]rune(lit), false)
	case c == '%':
		p.i += 2
		hex := func() int64 {
			j := p.i
			for p.i < len(p.s) && strings.IndexByte("0123456789ABCDEFabcdef", p.s[p.i]) >= 0 {
				p.i++
			}
			v, _ := strconv.ParseInt(p.s[j:p.i], 16, 64)
			return v
		}
		a := hex()
		if p.i < len(p.s) && p.s[p.i] == '-' {
			p.i++
			return nfCls([2]int64{a, hex()})
		}
		return nfCls([2]int64{a, a})
	}
	j := p.i
	for p.i < len(p.s) && (p.s[p.i] == '-' || p.s[p.i]|32 >= 'a' && p.s[p.i]|32 <= 'z' || p.s[p.i] >= '0' && p.s[p.i] <= '9') {
		p.i++
	}
	return &nf{op: "ref", name: strings.ToLower(p.s[j:p.i])}
}

// termNF converts an abstract rule expression to normal form.
type termNF struct {
	c   *Ctx
	err string
}

func (t *termNF) fail(format string, a ...any) *nf {
	if t.err == "" {
		t.err = fmt.Sprintf(format, a...)
	}
	return &nf{op: "?"}
}

func fieldsOf(v *ai.Term) map[string]*ai.Term {
	st := ai.StructType(v.T)
	if st == nil || v.Op != "struct" {
		return nil
	}
	m := map[string]*ai.Term{}
	for i := 0; i < st.NumFields() && i < len(v.Args); i++ {
		m[st.Field(i).Name()] = v.Args[i]
	}
	return m
}

func (t *termNF) list(v *ai.Term) []*ai.Term {
	if v == nil || v.IsNil() {
		return nil
	}
	if v.Op != "seq" && v.Op != "arr" {
		t.fail("not a literal list: %s", v.Op)
		return nil
	}
	var out []*ai.Term
	for _, a := range v.Args {
		if a.Op == "el" {
			a = a.Args[0]
		} else if v.Op == "seq" {
			t.fail("not a literal list element: %s", a)
		}
		out = append(out, a)
	}
	return out
}

func (t *termNF) alt(v *ai.Term) *nf {
	f := fieldsOf(v)
	if f == nil {
		return t.fail("not a literal alternation: %s", v)
	}
	var ks []*nf
	for _, c := range t.list(f["Concatenations"]) {
		cf := fieldsOf(c)
		if cf == nil {
			return t.fail("not a literal concatenation: %s", c)
		}
		var rs []*nf
		for _, r := range t.list(cf["Repetitions"]) {
			rf := fieldsOf(r)
			if rf == nil || !rf["Min"].IsInt() || !rf["Max"].IsInt() {
				return t.fail("not a literal repetition: %s", r)
			}
			mx := rf["Max"].K
			if mx < 0 {
				mx = -1
			}
			rs = append(rs, nfRep(rf["Min"].K, mx, t.elem(rf["Element"])))
		}
		ks = append(ks, nfSeq(rs...))
	}
	return nfAlt(ks...)
}

func (t *termNF) elem(v *ai.Term) *nf {
	if v.Op == "iface" {
		tn := ""
		if n, ok := v.T.(*types.Named); ok {
			tn = n.Obj().Name()
		}
		f := fieldsOf(v.Args[0])
		if f == nil {
			return t.fail("not a literal element: %s", v)
		}
		switch tn {
		case "ElemRulename":
			if f["Name"].IsStr() {
				return &nf{op: "ref", name: strings.ToLower(f["Name"].S)}
			}
		case "ElemGroup":
			return t.alt(f["Alternation"])
		case "ElemOption":
			return nfRep(0, 1, t.alt(f["Alternation"]))
		case "ElemCharVal":
			var rs []rune
			for _, r := range t.list(f["Values"]) {
				if !r.IsInt() {
					return t.fail("char-val value is not constant")
				}
				rs = append(rs, rune(r.K))
			}
			return nfLit(rs, f["Sensitive"].True())
		case "ElemNumVal":
			var vs []int64
			base := map[string]int{"b": 2, "d": 10, "x": 16}[strings.ToLower(f["Base"].S)]
			for _, e := range t.list(f["Elems"]) {
				x, err := strconv.ParseInt(e.S, base, 64)
				if !e.IsStr() || err != nil {
					return t.fail("num-val value is not constant")
				}
				vs = append(vs, x)
			}
			if !f["Status"].IsInt() {
				return t.fail("num-val status is not constant")
			}
			stat := t.c.Main.Pkg.Scope().Lookup("StatRange")
			rng := int64(-1)
			if k, ok := stat.(*types.Const); ok {
				rng, _ = constInt(k)
			}
			if f["Status"].K == rng {
				if len(vs) == 2 {
					return nfCls([2]int64{vs[0], vs[1]})
				}
				return t.fail("num-val range needs two bounds")
			}
			var ks []*nf
			for _, x := range vs {
				ks = append(ks, nfCls([2]int64{x, x}))
			}
			return nfSeq(ks...)
		}
		return t.fail("element of kind %s is not constant", tn)
	}
	return t.fail("not a literal element: %s", v)
}

func constInt(k *types.Const) (int64, bool) {
	v, err := strconv.ParseInt(k.Val().ExactString(), 10, 64)
	return v, err == nil
}

// mapEntries lists the entries of a literal map content.
func mapEntries(m *ai.Term) (map[string]*ai.Term, bool) {
	out := map[string]*ai.Term{}
	for m != nil {
		switch m.Op {
		case "mapval":
			m = m.Args[0]
		case "mempty":
			return out, true
		case "mupd":
			if !m.Args[1].IsStr() {
				return nil, false
			}
			if _, ok := out[m.Args[1].S]; !ok {
				out[m.Args[1].S] = m.Args[2]
			}
			m = m.Args[0]
		default:
			return nil, false
		}
	}
	return nil, false
}

const c01Rule = "built-in rule denotes the RFC definition"

func runC01(c *Ctx) {
	init := c.Main.Func("init")
	if init == nil {
		c.Undecided(c01Rule, "init", "", "no initialiser")
		return
	}
	st, ok := c.initState()
	if !ok {
		c.Undecided(c01Rule, "init", "", "the initialiser is not straight-line")
		return
	}
	c.Analysed(init)
	table := func(what string, v *ai.Term, spec map[string]*nf, where string) {
		es, ok := mapEntries(v)
		if !ok {
			c.Undecided(c01Rule, what, where, "the table is not a literal map: %s", firstLine(v.String()))
			return
		}
		for _, name := range sortedKeys(spec) {
			want := spec[name]
			r, ok := es[name]
			if !ok {
				c.Violate(c01Rule, what+" "+name, where, "the rule is missing from the table")
				continue
			}
			if r.Op == "ptrto" {
				r = r.Args[0]
			}
			f := fieldsOf(r)
			if f == nil || !f["Name"].IsStr() {
				c.Undecided(c01Rule, what+" "+name, where, "not a literal rule: %s", firstLine(r.String()))
				continue
			}
			if f["Name"].S != name {
				c.Violate(c01Rule, what+" "+name, where, "registered under %q but named %q", name, f["Name"].S)
				continue
			}
			t := &termNF{c: c}
			got := t.alt(f["Alternation"])
			if t.err != "" {
				c.Undecided(c01Rule, what+" "+name, where, "%s", t.err)
				continue
			}
			c.Expect(got.String() == want.String(), c01Rule, what+" "+name, where, "got  %s\nwant %s", got, want)
		}
		for _, name := range sortedKeys(es) {
			if _, ok := spec[name]; !ok {
				c.Violate(c01Rule, what+" "+name, where, "a rule the RFC does not define")
			}
		}
	}
	glob := func(name string) (*ai.Term, string) {
		g := c.Main.Var(name)
		if g == nil {
			return nil, ""
		}
		return st.Deep(st.Load(ai.Global(g), ai.Global(g).T)), c.Pos(g.Pos())
	}
	if v, w := glob("coreRules"); v != nil {
		table("core rule", v, parseSpec(rfcCore), w)
	} else {
		c.Undecided(c01Rule, "coreRules", "", "table not found")
	}
	if v, w := glob("ABNF"); v != nil {
		if v.Op == "ptrto" {
			v = v.Args[0]
		}
		if f := fieldsOf(v); f != nil {
			table("ABNF rule", f["Rulemap"], parseSpec(rfcMeta), w)
		} else {
			c.Undecided(c01Rule, "ABNF", w, "not a literal grammar")
		}
	} else {
		c.Undecided(c01Rule, "ABNF", "", "table not found")
	}
}

// initState interprets the package initialiser.
func (r *Repo) initState() (*ai.State, bool) { return r.initStateOf(r.Main) }

func (r *Repo) initStateOf(p *ssa.Package) (*ai.State, bool) {
	init := p.Func("init")
	in := &ai.Interp{Prog: r.Prog, Local: r.Local, Policy: func(*ssa.Function) ai.Mode { return ai.Inline }, MaxSteps: 5000000}
	st := ai.NewState()
	if g := p.Var("init$guard"); g != nil {
		st.Store(ai.Global(g), ai.Bool(false), types.Typ[types.Bool])
	}
	in.Run(init, nil, st)
	var best *ai.State
	n := 0
	for _, o := range in.Outcomes {
		if best == nil || len(o.St.Trace) > len(best.Trace) {
			best = o.St
		}
		n++
	}
	if dbg {
		fmt.Println("init outcomes", n, in.Undecided)
	}
	return best, best != nil
}
