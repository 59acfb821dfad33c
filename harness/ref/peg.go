package ref

import (
	"fmt"
	"strings"
	"unicode"
)

// A small interpreter for parsing expression grammars. It reads the grammar
// below and runs it directly; there is no generated code.

type pkind int

const (
	pSeq pkind = iota
	pAlt
	pStar
	pPlus
	pOpt
	pNot
	pLit
	pILit
	pClass
	pAny
	pRule
	pCap
	pAct
)

type pexpr struct {
	k    pkind
	subs []*pexpr
	lit  []rune
	name string
	neg  bool
	rng  [][2]rune
}

type grammar map[string]*pexpr

// language is the definition of the query language. 'x' matches exactly, "x"
// matches letters of either case, <x> captures, {x} is an action.
const language = `
Grammar     <- _ Expression _ !.
Expression  <- {mark} Not ( Logic Not )* {logic}
Not         <- Compare / _ "not" __ Compare {not}
Compare     <- InList ( CompareOp InList {cmp} )*
InList      <- Predicate ( _ < ( "in" / "not" __ "in" ) > {op} _ List {cmp} )?
Predicate   <- Range ( Match {pred} )?
Range       <- Primary ( _ < ("not" __)? 'between' > {op} _ ( Value _ "and" _ Value / '[' _ Value _ ',' _ Value _ ']' ) {between} )?
Primary     <- '(' _ Expression _ ')' {par}
             / Value
             / Name Args {fn}
             / Reference
Args        <- '(' {mark} _ ( Expression ( _ ',' _ Expression )* _ ','? )? _ ')' {list}
Reference   <- {mark} Name '.' Name ( '.' Name )* {path}
             / Json {reject}
             / Name
Json        <- Name '->' ( Json / Name )
Name        <- !( "not" ![_a-zA-Z0-9] ) < [a-zA-Z] [_a-zA-Z0-9]* > {name}
CompareOp   <- _ < ( '>=' / '<=' / '<>' / '==' / '!=' / '>' / '<' / '=' ) > _ {op}
             / _ < ( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" ) > _ {op}
             / _ < ( "like" / "not" __ "like" ) > _ {op}
Logic       <- _ < ( "and" / "or" / '&&' / '||' ) > _ {op}
Match       <- __ < ( 'isnull' / 'notnull' / 'is' __ ( 'true' / 'false' / 'null' ) / 'is' __ 'not' __ ( 'true' / 'false' / 'null' ) ) > _ {op}
Value       <- Literal / List
List        <- '[' {mark} _ ( Literal ( _ ',' _ Literal )* _ ','? )? _ ']' {list}
             / '(' {mark} _ ( Literal ( _ ',' _ Literal )* _ ','? )? _ ')' {list}
Literal     <- String / Integer / Boolean / Null
Integer     <- < '0' / [1-9] [0-9]* > {int}
Boolean     <- < 'true' / 'false' / 'TRUE' / 'FALSE' > ![_a-zA-Z0-9] {bool}
Null        <- ( 'null' / 'NULL' ) ![_a-zA-Z0-9] {null}
String      <- '\'' < [^']* > '\'' {str} / '"' < [^"]* > '"' {str}
_           <- Blank*
__          <- Blank+
Blank       <- ' ' / '\t' / EOL / Comment
Comment     <- ( '--' / '//' ) ( !EOL . )* EOL
EOL         <- '\r\n' / '\n' / '\r'
`

var lang = mustGrammar(language)

func mustGrammar(src string) grammar {
	p := &greader{s: []rune(src)}
	g := grammar{}
	p.space()
	for p.i < len(p.s) {
		name := p.ident()
		p.space()
		p.want("<-")
		g[name] = p.alt()
	}
	var check func(e *pexpr)
	check = func(e *pexpr) {
		if e.k == pRule && g[e.name] == nil {
			panic("no rule " + e.name)
		}
		for _, s := range e.subs {
			check(s)
		}
	}
	for _, e := range g {
		check(e)
	}
	return g
}

type greader struct {
	s []rune
	i int
}

func (p *greader) fail(msg string) {
	panic(fmt.Sprintf("grammar at %d: %s", p.i, msg))
}

func (p *greader) space() {
	for p.i < len(p.s) && unicode.IsSpace(p.s[p.i]) {
		p.i++
	}
}

func (p *greader) peek(s string) bool {
	r := []rune(s)
	return p.i+len(r) <= len(p.s) && string(p.s[p.i:p.i+len(r)]) == s
}

func (p *greader) want(s string) {
	if !p.peek(s) {
		p.fail("want " + s)
	}
	p.i += len([]rune(s))
	p.space()
}

func isIdentRune(r rune) bool { return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) }

func (p *greader) ident() string {
	st := p.i
	for p.i < len(p.s) && isIdentRune(p.s[p.i]) {
		p.i++
	}
	if st == p.i {
		p.fail("want name")
	}
	return string(p.s[st:p.i])
}

func (p *greader) alt() *pexpr {
	e := &pexpr{k: pAlt, subs: []*pexpr{p.seq()}}
	for p.i < len(p.s) && p.s[p.i] == '/' {
		p.i++
		p.space()
		e.subs = append(e.subs, p.seq())
	}
	if len(e.subs) == 1 {
		return e.subs[0]
	}
	return e
}

// startsRule looks for "name <-".
func (p *greader) startsRule() bool {
	j := p.i
	for j < len(p.s) && isIdentRune(p.s[j]) {
		j++
	}
	if j == p.i {
		return false
	}
	for j < len(p.s) && unicode.IsSpace(p.s[j]) {
		j++
	}
	return j+1 < len(p.s) && p.s[j] == '<' && p.s[j+1] == '-'
}

func (p *greader) seq() *pexpr {
	e := &pexpr{k: pSeq}
	for p.i < len(p.s) && !strings.ContainsRune("/)>", p.s[p.i]) && !p.startsRule() {
		e.subs = append(e.subs, p.suffix())
	}
	return e
}

func (p *greader) suffix() *pexpr {
	if p.s[p.i] == '!' {
		p.i++
		return &pexpr{k: pNot, subs: []*pexpr{p.suffix()}}
	}
	e := p.atom()
	for p.i < len(p.s) {
		k := pkind(-1)
		switch p.s[p.i] {
		case '*':
			k = pStar
		case '+':
			k = pPlus
		case '?':
			k = pOpt
		}
		if k < 0 {
			break
		}
		p.i++
		e = &pexpr{k: k, subs: []*pexpr{e}}
	}
	p.space()
	return e
}

func (p *greader) char() rune {
	c := p.s[p.i]
	p.i++
	if c == '\\' {
		c = p.s[p.i]
		p.i++
		switch c {
		case 'n':
			c = '\n'
		case 'r':
			c = '\r'
		case 't':
			c = '\t'
		}
	}
	return c
}

func (p *greader) atom() *pexpr {
	c := p.s[p.i]
	switch {
	case c == '(':
		p.i++
		p.space()
		e := p.alt()
		if p.s[p.i] != ')' {
			p.fail("want )")
		}
		p.i++
		return e
	case c == '<':
		p.i++
		p.space()
		e := p.alt()
		if p.s[p.i] != '>' {
			p.fail("want >")
		}
		p.i++
		return &pexpr{k: pCap, subs: []*pexpr{e}}
	case c == '{':
		p.i++
		n := p.ident()
		if p.s[p.i] != '}' {
			p.fail("want }")
		}
		p.i++
		return &pexpr{k: pAct, name: n}
	case c == '.':
		p.i++
		return &pexpr{k: pAny}
	case c == '\'' || c == '"':
		p.i++
		e := &pexpr{k: pLit}
		if c == '"' {
			e.k = pILit
		}
		for p.s[p.i] != c {
			e.lit = append(e.lit, p.char())
		}
		p.i++
		return e
	case c == '[':
		p.i++
		e := &pexpr{k: pClass}
		if p.s[p.i] == '^' {
			e.neg = true
			p.i++
		}
		for p.s[p.i] != ']' {
			lo := p.char()
			hi := lo
			if p.s[p.i] == '-' {
				p.i++
				hi = p.char()
			}
			e.rng = append(e.rng, [2]rune{lo, hi})
		}
		p.i++
		return e
	case isIdentRune(c):
		return &pexpr{k: pRule, name: p.ident()}
	}
	p.fail("unexpected " + string(c))
	return nil
}

// event is a step of the successful derivation.
type event struct {
	action string
	from   int // capture
	to     int
}

type matcher struct {
	in     []rune
	events []event
	steps  int
	limit  int
	depth  int
	// deepest position, for samples
	far int
}

type tooMuch struct{}

func lower(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

// run matches e at i and returns the new position or -1.
func (m *matcher) run(e *pexpr, i int) int {
	m.steps++
	if m.limit > 0 && m.steps > m.limit {
		panic(tooMuch{})
	}
	switch e.k {
	case pSeq:
		mark := len(m.events)
		for _, s := range e.subs {
			if i = m.run(s, i); i < 0 {
				m.events = m.events[:mark]
				return -1
			}
		}
		return i
	case pAlt:
		for _, s := range e.subs {
			mark := len(m.events)
			if j := m.run(s, i); j >= 0 {
				return j
			}
			m.events = m.events[:mark]
		}
		return -1
	case pStar, pPlus, pOpt:
		count := 0
		for {
			mark := len(m.events)
			j := m.run(e.subs[0], i)
			if j < 0 {
				m.events = m.events[:mark]
				break
			}
			count++
			stop := j == i
			i = j
			if e.k == pOpt || stop {
				break
			}
		}
		if e.k == pPlus && count == 0 {
			return -1
		}
		return i
	case pNot:
		mark := len(m.events)
		j := m.run(e.subs[0], i)
		m.events = m.events[:mark]
		if j >= 0 {
			return -1
		}
		return i
	case pLit, pILit:
		if i+len(e.lit) > len(m.in) {
			return -1
		}
		for k, r := range e.lit {
			c := m.in[i+k]
			if e.k == pILit {
				c, r = lower(c), lower(r)
			}
			if c != r {
				return -1
			}
		}
		return i + len(e.lit)
	case pClass:
		if i >= len(m.in) {
			return -1
		}
		in := false
		for _, r := range e.rng {
			if m.in[i] >= r[0] && m.in[i] <= r[1] {
				in = true
			}
		}
		if in == e.neg {
			return -1
		}
		return i + 1
	case pAny:
		if i >= len(m.in) {
			return -1
		}
		return i + 1
	case pRule:
		return m.run(lang[e.name], i)
	case pCap:
		j := m.run(e.subs[0], i)
		if j >= 0 {
			m.events = append(m.events, event{from: i, to: j})
		}
		return j
	case pAct:
		m.events = append(m.events, event{action: e.name})
		return i
	}
	panic("bad expression")
}
