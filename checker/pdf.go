package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---- events and reporting -------------------------------------------------

type HKind int

const (
	HInt     HKind = iota // decimal integer
	HNum                  // decimal real, fixed notation
	HExp                  // real that may be printed with an exponent
	HHex                  // hexadecimal digits
	HUser                 // one character of caller-controlled text (image of a representative)
	HSafe                 // text of letters, digits and + - ' : . _ ~ %
	HOpaque               // raw bytes
	HTrusted              // complete token(s) produced by the third-party importer
	HObject               // one complete object body (file grammar only)
)

type Hole struct {
	Kind HKind
	Src  BV
	Body *bodyInfo
	Img  string // HUser: the characters the representative is turned into
	Rep  byte   // HUser: the representative itself
}

// bodyInfo describes data written between stream and endstream.
type bodyInfo struct {
	ident string // identity of the plain data
	enc   bool
	val   BV // the data itself, if it is a plain value
	src   BV // the call that read the data from a buffer
	objID BV // argument of the key derivation
	prot  int
}

type refSite struct {
	obj, path string
	src       BV
	lit       int
	pos       string
}

type nameSite struct {
	obj, path, text string
	srcs            []BV
	pos             string
	resource        bool // defines the name (dictionary key) rather than uses it
}

type strSite struct {
	obj, path string
	srcs      []BV
	prot      int // 1 protection known on, -1 known off, 0 unknown
	hex       bool
	lit       bool // has literal characters of its own
	pos       string
}

type bodySite struct {
	bodyInfo
	raw bool // data of unknown origin
	pos string
}

// emitFinding is a raw result of the emission analysis.
type emitFinding struct {
	kind string // syntax escape content length unresolved
	root string
	fn   string
	pos  string
	msg  string
}

// reporter collects what one analysis run observes.
type reporter struct {
	p        *Prog
	root     string
	fn       string
	pos      string
	prot     int
	marks    []string
	mute     int
	findings map[string]emitFinding
	refs     map[string]refSite
	ints     map[string]BV // integer values of top-level keys: "Key|pos"
	names    map[string]nameSite
	strs     map[string]strSite
	bodies   map[string]bodySite
	srcTab   []BV
	srcIdx   map[string]int
	vc       *valCtx
	events   int
	it       *Interp
	seen     []fact // choices that led to the text being read
	file     *fileLog
	coords   map[string]*coordSite
}

func newReporter(p *Prog, vc *valCtx, root string) *reporter {
	return &reporter{p: p, vc: vc, root: root, findings: map[string]emitFinding{}, refs: map[string]refSite{}, ints: map[string]BV{}, names: map[string]nameSite{}, strs: map[string]strSite{}, bodies: map[string]bodySite{}, srcIdx: map[string]int{}}
}

func (r *reporter) report(kind, format string, a ...any) {
	if r.mute > 0 {
		return
	}
	msg := fmt.Sprintf(format, a...)
	k := kind + "|" + r.fn + "|" + msg
	if old, ok := r.findings[k]; ok && old.pos <= r.pos {
		return
	}
	r.findings[k] = emitFinding{kind, r.root, r.fn, r.pos, msg}
}

func (r *reporter) srcID(b BV) int {
	k := r.vc.id(b)
	if i, ok := r.srcIdx[k]; ok {
		return i
	}
	r.srcTab = append(r.srcTab, b)
	r.srcIdx[k] = len(r.srcTab)
	return len(r.srcTab)
}

func (r *reporter) srcsOf(ids string) []BV {
	var out []BV
	for _, s := range strings.Fields(ids) {
		n, _ := strconv.Atoi(s)
		if n > 0 {
			out = append(out, r.srcTab[n-1])
		}
	}
	return out
}

// ---- tokens ---------------------------------------------------------------

type tokKind int

const (
	tInt tokKind = iota
	tReal
	tName
	tStr
	tHex
	tDictOpen
	tDictClose
	tArrOpen
	tArrClose
	tKw
	tTrusted
	tObject
)

var tokNames = map[tokKind]string{tInt: "integer", tReal: "number", tName: "name", tStr: "string", tHex: "hex string", tDictOpen: "<<", tDictClose: ">>", tArrOpen: "[", tArrClose: "]", tKw: "keyword", tTrusted: "imported token", tObject: "object body"}

type tok struct {
	kind tokKind
	text string // name/keyword text, literal integer text
	src  int    // source of an integer (0: literal)
	srcs string // sources of holes in names and strings
	user bool
}

// parser consumes tokens.
type parser interface {
	tok(r *reporter, t tok) (parser, bool)
	key() string
	inStream() bool                                   // characters go to body
	dataMode() bool                                   // byte slices are opaque stream data
	body(r *reporter, s string, h *Hole) (Mach, bool) // raw stream data
}

// ---- lexer ----------------------------------------------------------------

// Mach is the state of the emitted language: lexer state plus parser state. Immutable.
type Mach struct {
	mode  byte // ' ' none, '/' name, '0' number, 'k' keyword, '(' string, '\\' escape in string, 'h' hex, '<' '>' pending, '%' comment
	txt   string
	depth int
	src   int
	srcs  string
	user  bool
	ps    parser
	seen  []fact // the choices that led to the text, sorted: they hold on the path from here on
}

func (m Mach) Key() string {
	k := fmt.Sprintf("%c|%s|%d|%d|%s|%v|%s", m.mode, m.txt, m.depth, m.src, m.srcs, m.user, m.ps.key())
	for _, f := range m.seen {
		k += fmt.Sprintf("|%s=%v", f.key, f.val)
	}
	return k
}

func isSpace(c byte) bool {
	return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == 0 || c == '\f'
}
func isDelim(c byte) bool { return strings.IndexByte("()<>[]{}/%", c) >= 0 }

func (m Mach) reset() Mach {
	return Mach{mode: ' ', ps: m.ps, seen: m.seen}
}

// flush ends a pending name/number/keyword token.
func (m Mach) flush(r *reporter) (Mach, bool) {
	var t tok
	switch m.mode {
	case ' ':
		return m, true
	case '/':
		t = tok{kind: tName, text: m.txt, srcs: m.srcs, user: m.user}
		if m.txt == "" && !m.user {
			r.report("syntax", "empty name: a '/' with no name after it is written")
			return m, false
		}
	case '0':
		switch {
		case strings.Contains(m.txt, "r"):
			t = tok{kind: tReal, text: m.txt, src: m.src}
		case m.txt == "-" || m.txt == "":
			r.report("syntax", "a sign with no number is written")
			return m, false
		default:
			t = tok{kind: tInt, text: m.txt, src: m.src}
		}
	case 'k':
		t = tok{kind: tKw, text: m.txt}
	case '%':
		return m.reset(), true
	case '>':
		r.report("syntax", "unmatched '>' is written")
		return m, false
	default:
		return m, true
	}
	ps, ok := m.ps.tok(r, t)
	m = m.reset()
	m.ps = ps
	return m, ok
}

// char feeds one output character. raw says the character is an unmodified character of
// caller-controlled text.
func (m Mach) char(r *reporter, c byte, user, raw bool) (Mach, bool) {
	if m.ps.inStream() {
		return m.ps.body(r, string(c), nil)
	}
	switch m.mode {
	case '(':
		switch c {
		case '\\':
			if user && raw {
				r.report("escape", "caller text can put an unescaped backslash into a PDF string")
				return m, false
			}
			m.mode = '\\'
		case '(':
			if user && raw {
				r.report("escape", "caller text can put an unescaped '(' into a PDF string")
				return m, false
			}
			m.depth++
		case ')':
			if user && raw {
				r.report("escape", "caller text can put an unescaped ')' into a PDF string")
				return m, false
			}
			m.depth--
			if m.depth == 0 {
				t := tok{kind: tStr, srcs: m.srcs, user: m.user}
				ps, ok := m.ps.tok(r, t)
				m = m.reset()
				m.ps = ps
				return m, ok
			}
		case '\r':
			if user && raw {
				r.report("escape", "caller text can put a raw carriage return into a PDF string (it would be read back as a line feed)")
				return m, false
			}
		}
		return m, true
	case '\\':
		m.mode = '('
		return m, true
	case 'h':
		switch {
		case c == '>':
			if user {
				r.report("escape", "caller text can close a hexadecimal string")
				return m, false
			}
			t := tok{kind: tHex, srcs: m.srcs, user: m.user}
			ps, ok := m.ps.tok(r, t)
			m = m.reset()
			m.ps = ps
			return m, ok
		case isSpace(c), c >= '0' && c <= '9', c >= 'a' && c <= 'f', c >= 'A' && c <= 'F':
			return m, true
		}
		if user {
			r.report("escape", "caller text reaches a hexadecimal string without hex encoding")
		} else {
			r.report("syntax", "character %q inside a hexadecimal string", c)
		}
		return m, false
	case '<':
		if c == '<' && !user {
			ps, ok := m.ps.tok(r, tok{kind: tDictOpen})
			m = m.reset()
			m.ps = ps
			return m, ok
		}
		m.mode = 'h'
		m.txt = ""
		return m.char(r, c, user, raw)
	case '>':
		if c == '>' && !user {
			ps, ok := m.ps.tok(r, tok{kind: tDictClose})
			m = m.reset()
			m.ps = ps
			return m, ok
		}
		r.report("syntax", "unmatched '>' is written")
		return m, false
	case '%':
		if c == '\n' || c == '\r' {
			return m.reset(), true
		}
		return m, true
	case '/':
		if user && raw && (isSpace(c) || isDelim(c) || c == '#') {
			r.report("escape", "caller text can end or corrupt a PDF name (character %q is not encoded)", c)
			return m, false
		}
		if !isSpace(c) && !isDelim(c) {
			if user {
				if !strings.HasSuffix(m.txt, "{u}") {
					m.txt = growName(m.txt, "{u}")
				}
				m.user = true
			} else {
				m.txt = growName(m.txt, string(c))
			}
			return m, true
		}
		if user {
			r.report("escape", "caller text can end a PDF name")
			return m, false
		}
	case '0':
		switch {
		case c >= '0' && c <= '9':
			if strings.HasSuffix(m.txt, "H") {
				r.report("syntax", "a formatted number runs into the digit %q", c)
				return m, false
			}
			switch {
			case strings.Contains(m.txt, "r"):
			case len(m.txt) < 6:
				m.txt += string(c)
			}
			return m, true
		case c == '.':
			if strings.Contains(m.txt, "r") {
				r.report("syntax", "number with two decimal points")
				return m, false
			}
			m.txt = "r"
			return m, true
		case !isSpace(c) && !isDelim(c):
			r.report("syntax", "number runs into the character %q", c)
			return m, false
		}
	case 'k':
		if !isSpace(c) && !isDelim(c) {
			m.txt += string(c)
			if len(m.txt) > 40 {
				r.report("syntax", "unknown keyword %q", m.txt)
				return m, false
			}
			return m, true
		}
	}
	if user {
		r.report("escape", "caller text is written outside any PDF string or name")
		return m, false
	}
	// a boundary: finish the pending token, then start a new one
	var ok bool
	if m, ok = m.flush(r); !ok {
		return m, false
	}
	if m.ps.inStream() {
		return m.ps.body(r, string(c), nil)
	}
	switch {
	case isSpace(c):
		return m, true
	case c == '/':
		m.mode = '/'
	case c == '(':
		m.mode, m.depth = '(', 1
	case c == '<':
		m.mode = '<'
	case c == '>':
		m.mode = '>'
	case c == '[' || c == ']':
		k := tArrOpen
		if c == ']' {
			k = tArrClose
		}
		ps, ok := m.ps.tok(r, tok{kind: k})
		m.ps = ps
		return m, ok
	case c == '%':
		m.mode = '%'
	case c == ')':
		r.report("syntax", "unmatched ')' is written")
		return m, false
	case c == '{' || c == '}':
		r.report("syntax", "stray %q is written", c)
		return m, false
	case c >= '0' && c <= '9':
		m.mode, m.txt = '0', string(c)
	case c == '-' || c == '+':
		m.mode, m.txt = '0', "-"
	case c == '.':
		m.mode, m.txt = '0', "r"
	default:
		m.mode, m.txt = 'k', string(c)
	}
	return m, true
}

// with: the machines made from this one have seen the same choices.
func (m Mach) with(in []Mach) []Mach {
	for i := range in {
		in[i].seen = m.seen
	}
	return in
}

func (m Mach) lit(r *reporter, s string) []Mach {
	r.seen = m.seen
	return m.with(m.lit0(r, s))
}

func (m Mach) lit0(r *reporter, s string) []Mach {
	r.events++
	if m.ps.inStream() {
		m2, ok := m.ps.body(r, s, nil)
		if !ok {
			return nil
		}
		return []Mach{m2}
	}
	for i := 0; i < len(s); i++ {
		var ok bool
		before := m.mode
		if m, ok = m.char(r, s[i], false, false); !ok {
			return nil
		}
		if before == '(' && m.mode == '(' || m.mode == 'h' {
			m.srcs = addSrc(m.srcs, 0)
		}
		if m.ps.inStream() && i+1 < len(s) {
			return m.lit0(r, s[i+1:])
		}
	}
	return []Mach{m}
}

func addSrc(srcs string, id int) string {
	f := strings.Fields(srcs)
	s := strconv.Itoa(id)
	for _, x := range f {
		if x == s {
			return srcs
		}
	}
	f = append(f, s)
	sort.Strings(f)
	return strings.Join(f, " ")
}

func (m Mach) hole(r *reporter, h Hole) []Mach {
	r.seen = m.seen
	return m.with(m.hole0(r, h))
}

func (m Mach) hole0(r *reporter, h Hole) []Mach {
	r.events++
	one := func(m Mach, ok bool) []Mach {
		if !ok {
			return nil
		}
		return []Mach{m}
	}
	if m.ps.inStream() {
		return one(m.ps.body(r, "", &h))
	}
	switch h.Kind {
	case HObject, HTrusted:
		var ok bool
		if m.mode == '/' && h.Kind == HTrusted {
			m.txt = growName(m.txt, "{t}")
			return []Mach{m}
		}
		if m.mode == '(' || m.mode == 'h' {
			m.srcs = addSrc(m.srcs, 0)
			return []Mach{m}
		}
		if m, ok = m.flush(r); !ok {
			return nil
		}
		k := tObject
		if h.Kind == HTrusted {
			k = tTrusted
		}
		ps, ok := m.ps.tok(r, tok{kind: k, src: r.srcID(h.Src)})
		m.ps = ps
		return one(m, ok)
	case HUser:
		// one character of caller text
		inStr := m.mode
		if m.mode == '(' || m.mode == 'h' || m.mode == '/' || m.mode == '<' {
			m.srcs = addSrc(m.srcs, r.srcID(h.Src))
		}
		for i := 0; i < len(h.Img); i++ {
			var ok bool
			raw := len(h.Img) == 1 && h.Img[0] == h.Rep
			if m, ok = m.char(r, h.Img[i], true, raw || !raw && strings.IndexByte("()", h.Img[i]) >= 0 && m.mode == '('); !ok {
				return nil
			}
		}
		if inStr == '(' && m.mode == '\\' {
			r.report("escape", "caller text can end with a pending backslash in a PDF string")
			return nil
		}
		return []Mach{m}
	case HSafe:
		if m.mode == '(' || m.mode == '%' {
			m.srcs = addSrc(m.srcs, r.srcID(h.Src))
			return []Mach{m}
		}
		if m.mode == '/' {
			m.txt = growName(m.txt, "{s}")
			return []Mach{m}
		}
		if m.mode == 'h' {
			r.report("escape", "text reaches a hexadecimal string without hex encoding")
			return nil
		}
		r.report("syntax", "text is written outside any PDF string or name")
		return nil
	case HOpaque:
		if m.mode == '(' || m.mode == '/' || m.mode == 'h' {
			r.report("escape", "raw data is written inside a PDF string or name")
			return nil
		}
		r.report("syntax", "raw data is written outside a stream")
		return nil
	case HHex:
		switch m.mode {
		case 'h':
			m.srcs = addSrc(m.srcs, r.srcID(h.Src))
			return []Mach{m}
		case '<':
			m.mode, m.txt = 'h', ""
			m.srcs = addSrc(m.srcs, r.srcID(h.Src))
			return []Mach{m}
		case '(', '\\', '%':
			m.mode = map[byte]byte{'(': '(', '\\': '(', '%': '%'}[m.mode]
			return []Mach{m}
		case '/':
			m.txt = growName(m.txt, "{x}")
			return []Mach{m}
		}
		r.report("syntax", "hexadecimal digits are written outside a hexadecimal string")
		return nil
	case HExp:
		r.report("syntax", "a number is formatted so that it may be printed with an exponent, which PDF does not allow")
		return nil
	case HInt, HNum:
		switch m.mode {
		case '(', '%':
			m.srcs = addSrc(m.srcs, r.srcID(h.Src))
			return []Mach{m}
		case '\\':
			m.mode = '('
			return []Mach{m}
		case 'h':
			m.srcs = addSrc(m.srcs, r.srcID(h.Src))
			if h.Kind == HNum {
				r.report("syntax", "a number is written inside a hexadecimal string")
				return nil
			}
			return []Mach{m}
		case '<':
			m.mode, m.txt = 'h', ""
			return []Mach{m}
		case '/':
			if h.Kind == HNum {
				r.report("syntax", "a real number is written inside a name")
				return nil
			}
			m.txt = growName(m.txt, "{}")
			m.srcs = addSrc(m.srcs, r.srcID(h.Src))
			return []Mach{m}
		case 'k':
			r.report("syntax", "a number runs into keyword %q", m.txt)
			return nil
		case '0':
			if strings.HasSuffix(m.txt, "H") {
				r.report("syntax", "two formatted numbers run together")
				return nil
			}
			if m.txt != "-" && m.txt != "" {
				r.report("syntax", "a formatted number follows literal digits without a separator")
				return nil
			}
		case '>':
			r.report("syntax", "unmatched '>' is written")
			return nil
		}
		neg := m.mode == '0'
		m.mode = '0'
		if h.Kind == HInt {
			m.txt = "H"
			if !neg {
				m.src = r.srcID(h.Src)
			}
		} else {
			m.txt = "rH"
			m.src = r.srcID(h.Src)
			if neg {
				m.txt = "-rH"
			}
		}
		return []Mach{m}
	}
	return nil
}

// growName appends to the text of a name, which is not kept beyond a bound (names with computed
// parts only need their beginning).
func growName(t, s string) string {
	if len(t) > 40 {
		return t
	}
	if strings.HasSuffix(t, s) && strings.HasPrefix(s, "{") || strings.Contains(t, "{u}") && (s == "#" || s == "{x}") {
		return t
	}
	return t + s
}

// idle reports whether no token is open.
func (m Mach) finish(r *reporter) (Mach, bool) {
	switch m.mode {
	case '(', '\\':
		r.report("syntax", "a literal string is left open")
		return m, false
	case 'h', '<':
		r.report("syntax", "a hexadecimal string is left open")
		return m, false
	}
	return m.flush(r)
}

// ---- object grammar -------------------------------------------------------

type dframe struct {
	kind byte // 'D' or 'A'
	st   int  // dict: 0 key 1 value 2 one int pending 3 two ints pending
	k    string
	ksrc string
	src  int
	keys []string // "Key=desc" sorted
	n    int
	ints int
	prev int // source of second last int
	last int
	kset string // kinds seen in array
	nm   string // last name in array
}

type objParser struct {
	stack  []dframe
	phase  int    // 0 before value, 1 value complete, 2 in stream, 3 after endstream
	top    string // description of the value
	keys   []string
	tail   string
	body_  string
	lenID  string
	lenSrc int
	trail  bool // trailer mode: only a dict is expected, then accept
}

func (o *objParser) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d;%s;%s;%s;%s;%s", o.phase, o.top, strings.Join(o.keys, ","), o.tail, o.body_, fmt.Sprint(o.lenID, o.lenSrc))
	for _, f := range o.stack {
		fmt.Fprintf(&sb, "/%c%d %s %d [%s] %d %d %d %d %s %s", f.kind, f.st, f.k, f.src, strings.Join(f.keys, ","), f.n, f.ints, f.prev, f.last, f.kset, f.nm)
	}
	return sb.String()
}

func (o *objParser) inStream() bool { return o.phase == 2 }
func (o *objParser) dataMode() bool { return o.phase == 2 }

func (o *objParser) clone() *objParser {
	c := *o
	c.stack = append([]dframe(nil), o.stack...)
	return &c
}

func (o *objParser) path() string {
	var s []string
	for _, f := range o.stack {
		if f.kind == 'D' {
			s = append(s, f.k)
		} else {
			s = append(s, "["+strconv.Itoa(min(f.n, 3))+"]")
		}
	}
	return strings.Join(s, "/")
}

func (o *objParser) top_() *dframe {
	if len(o.stack) == 0 {
		return nil
	}
	return &o.stack[len(o.stack)-1]
}

func addKey(keys []string, k, desc string) []string {
	out := append([]string(nil), keys...)
	out = append(out, k+"="+desc)
	sort.Strings(out)
	return out
}

// value records a complete value of the given description in the enclosing container.
func (o *objParser) value(r *reporter, desc string) bool {
	f := o.top_()
	if f == nil {
		if o.phase != 0 {
			r.report("syntax", "a second value (%s) follows the complete object value", desc)
			return false
		}
		o.phase = 1
		o.top = desc
		return true
	}
	if f.kind == 'A' {
		if f.n < 9 {
			f.n++
		}
		kind, _, _ := strings.Cut(desc, ":")
		if !strings.Contains(","+f.kset+",", ","+kind+",") {
			ks := strings.Split(f.kset, ",")
			if f.kset == "" {
				ks = nil
			}
			ks = append(ks, kind)
			sort.Strings(ks)
			f.kset = strings.Join(ks, ",")
		}
		if kind != "int" {
			f.ints = 0
		}
		return true
	}
	// dictionary
	if f.st == 0 {
		r.report("syntax", "dictionary value (%s) where a key is expected", desc)
		return false
	}
	dyn := strings.Contains(f.k, "{")
	for _, k := range f.keys {
		kk, _, _ := strings.Cut(k, "=")
		if kk == f.k && !dyn {
			r.report("syntax", "dictionary key /%s is written twice on one path", f.k)
			return false
		}
	}
	if !dyn {
		f.keys = addKey(f.keys, f.k, desc)
	} else {
		found := false
		for _, k := range f.keys {
			if k == f.k+"="+desc {
				found = true
			}
		}
		if !found {
			f.keys = addKey(f.keys, f.k, desc)
		}
	}
	f.st = 0
	f.k = ""
	f.src = 0
	return true
}

func (o *objParser) commitInt(r *reporter) bool {
	f := o.top_()
	if f == nil || f.kind != 'D' {
		return true
	}
	switch f.st {
	case 2:
		return o.value(r, "int")
	case 3:
		r.report("syntax", "two integers without R as the value of /%s", f.k)
		return false
	}
	return true
}

func (o *objParser) tok(r *reporter, t tok) (parser, bool) {
	o = o.clone()
	f := o.top_()
	fail := func(format string, a ...any) (parser, bool) {
		r.report("syntax", format, a...)
		return o, false
	}
	if o.phase == 3 {
		return fail("%s %s is written after endstream", tokNames[t.kind], t.text)
	}
	if o.phase == 1 {
		if t.kind == tKw && t.text == "stream" {
			if !strings.HasPrefix(o.top, "dict") {
				return fail("stream keyword does not follow a dictionary")
			}
			o.phase = 2
			o.tail = ""
			return o, true
		}
		return fail("%s %s follows the complete object value", tokNames[t.kind], t.text)
	}
	if f != nil && f.kind == 'D' && (f.st == 2 || f.st == 3) {
		// an integer is pending
		if f.st == 2 && t.kind == tInt {
			if t.src != 0 || t.text != "0" {
				return fail("value of /%s is followed by another number", f.k)
			}
			f.st = 3
			return o, true
		}
		if f.st == 3 {
			if t.kind == tKw && t.text == "R" {
				o.ref(r, f.src, f.k)
				return o, o.value(r, "ref")
			}
			return fail("two integers without R as the value of /%s", f.k)
		}
		if !o.commitInt(r) {
			return o, false
		}
		f = o.top_()
	}
	switch t.kind {
	case tDictOpen, tArrOpen:
		if f != nil && f.kind == 'D' && f.st != 1 {
			return fail("%s where a dictionary key is expected", tokNames[t.kind])
		}
		if len(o.stack) > 12 {
			return fail("nesting too deep")
		}
		k := byte('D')
		if t.kind == tArrOpen {
			k = 'A'
		}
		o.stack = append(o.stack, dframe{kind: k})
		return o, true
	case tDictClose:
		if f == nil || f.kind != 'D' {
			return fail("'>>' without a matching '<<'")
		}
		if f.st != 0 {
			return fail("dictionary closed after key /%s without a value", f.k)
		}
		keys := f.keys
		o.stack = o.stack[:len(o.stack)-1]
		desc := "dict"
		if len(o.stack) == 0 {
			o.keys = keys
		} else {
			desc = "dict:" + strings.Join(keys, "&")
		}
		return o, o.value(r, desc)
	case tArrClose:
		if f == nil || f.kind != 'A' {
			return fail("']' without a matching '['")
		}
		desc := fmt.Sprintf("array:%d:%s", f.n, f.kset)
		o.stack = o.stack[:len(o.stack)-1]
		return o, o.value(r, desc)
	case tName:
		if f != nil && f.kind == 'D' && f.st == 0 {
			f.k = t.text
			f.st = 1
			if t.srcs != "" {
				k := r.pos + t.text + o.path()
				r.names[k] = nameSite{r.root, o.path(), t.text, r.srcsOf(t.srcs), r.pos, true}
			}
			return o, true
		}
		if t.srcs != "" {
			k := r.pos + t.text + o.path()
			r.names[k] = nameSite{r.root, o.path(), t.text, r.srcsOf(t.srcs), r.pos, false}
		}
		if f != nil && f.kind == 'A' {
			f.nm = t.text
		}
		return o, o.value(r, "name:"+t.text)
	case tTrusted:
		if f == nil {
			if o.phase != 0 {
				return fail("imported object data follows a complete value")
			}
			o.phase = 3
			o.top = "trusted"
			return o, true
		}
		if f.kind == 'D' && f.st == 0 {
			f.k = "{t}"
			f.st = 1
			r.names[r.pos+f.k+o.path()] = nameSite{r.root, o.path(), f.k, nil, r.pos, true}
			return o, true
		}
		return o, o.value(r, "trusted")
	case tInt:
		if f == nil {
			return o, o.value(r, "int")
		}
		if f.kind == 'A' {
			o.place(r, t)
			ok := o.value(r, "int")
			f = o.top_()
			f.ints = min(f.ints+1, 2)
			f.prev, f.last = f.last, t.src
			if t.src == 0 {
				n, _ := strconv.Atoi(t.text)
				f.last = -n
			}
			return o, ok
		}
		if f.st != 1 {
			return fail("integer where a dictionary key is expected")
		}
		f.st = 2
		f.src = t.src
		if t.src == 0 {
			n, _ := strconv.Atoi(t.text)
			f.src = -n
		}
		if len(o.stack) == 1 && t.src > 0 {
			r.ints[f.k+"|"+r.pos] = r.srcTab[t.src-1]
		}
		if f.k == "Length" && len(o.stack) == 1 {
			if t.src > 0 {
				o.lenID = r.lengthIdent(r.srcTab[t.src-1])
				o.lenSrc = t.src
			} else {
				o.lenID = "const:" + t.text
			}
		}
		return o, true
	case tReal:
		o.place(r, t)
		return o, o.value(r, "real")
	case tStr, tHex:
		k := fmt.Sprintf("%s|%s|%s|%d", r.pos, o.path(), t.srcs, r.prot)
		r.strs[k] = strSite{r.root, o.path(), r.srcsOf(t.srcs), r.prot, t.kind == tHex, strings.Contains(" "+t.srcs+" ", " 0 "), r.pos}
		if f == nil {
			return fail("string at top level")
		}
		d := "str"
		return o, o.value(r, d)
	case tKw:
		switch t.text {
		case "R":
			if f == nil || f.kind != 'A' || f.ints < 2 {
				return fail("R without an object and generation number")
			}
			if f.last != 0 {
				return fail("generation number of a reference is not 0")
			}
			o.ref(r, f.prev, "")
			f.n -= 2
			f.ints = 0
			// the two integers belonged to the reference
			if f.n <= 0 || f.kset == "int" {
				f.kset = strings.TrimPrefix(strings.ReplaceAll(","+f.kset, ",int", ""), ",")
			}
			return o, o.value(r, "ref")
		case "true", "false":
			return o, o.value(r, "bool")
		case "null":
			return o, o.value(r, "null")
		}
		return fail("unexpected keyword %q inside an object", t.text)
	}
	return fail("unexpected %s", tokNames[t.kind])
}

func (o *objParser) ref(r *reporter, src int, key string) {
	p := o.path()
	s := refSite{obj: r.root, path: p, pos: r.pos}
	if src > 0 {
		s.src = r.srcTab[src-1]
	} else {
		s.lit = -src
	}
	r.refs[fmt.Sprintf("%s|%s|%d", r.pos, p, src)] = s
}

func (o *objParser) body(r *reporter, s string, h *Hole) (Mach, bool) {
	o = o.clone()
	fin := func(ok bool) (Mach, bool) { return Mach{mode: ' ', ps: o}, ok }
	if h != nil {
		if o.tail == "" || o.tail == "\r" {
			r.report("syntax", "the stream keyword is not followed by a line feed")
			return fin(false)
		}
		if o.tail != "\n" && o.tail != "\r\n" {
			r.report("length", "literal text %q precedes stream data inside the stream", o.tail)
			return fin(false)
		}
		id := "?"
		if h.Body != nil {
			id = fmt.Sprintf("%s;enc=%v;prot=%d", h.Body.ident, h.Body.enc, h.Body.prot)
			if h.Body.enc {
				id += ";objid=" + r.vc.id(h.Body.objID)
			}
			bs := bodySite{bodyInfo: *h.Body, pos: r.pos}
			if bs.prot == 0 {
				bs.prot = r.prot
			}
			r.bodies[fmt.Sprint(id, r.pos, bs.prot)] = bs
		} else {
			id = fmt.Sprintf("hole%d:%s", h.Kind, r.vc.id(h.Src))
			r.bodies[fmt.Sprint(id, r.pos, r.prot)] = bodySite{bodyInfo: bodyInfo{ident: id, prot: r.prot, src: h.Src}, raw: true, pos: r.pos}
		}
		if o.body_ != "" {
			if o.body_ == id {
				r.report("length", "stream data is written more than once")
			} else {
				r.report("length", "more than one piece of data is written into the stream (%s and %s)", o.body_, id)
			}
			return fin(false)
		}
		o.body_ = id
		o.tail = ""
		if h.Body != nil {
			if o.lenID != "" && o.lenID != h.Body.ident {
				r.report("length", "the stream Length measures other data than is written as the stream")
			}
			if strings.HasPrefix(h.Body.ident, "buf:") {
				if r.unflushed(h.Body.ident) {
					r.report("length", "stream data is written before the compressing writer in front of its buffer is closed")
				}
				if h.Body.src.v != nil && r.stale(h.Body.src) {
					r.report("length", "the stream data was read from its buffer before the last write to it")
				}
				if o.lenSrc > 0 && r.stale(r.lengthCall(r.srcTab[o.lenSrc-1])) {
					r.report("length", "the stream Length was taken before the last write to the data")
				}
			}
		}
		return fin(true)
	}
	o.tail += s
	if i := strings.Index(o.tail, "endstream"); i >= 0 {
		if strings.TrimSpace(o.tail[:i]) != "" {
			r.report("length", "literal text %q is written inside the stream after its data", strings.TrimSpace(o.tail[:i]))
			return fin(false)
		}
		rest := o.tail[i+len("endstream"):]
		o.phase = 3
		o.tail = ""
		if o.body_ == "" {
			r.report("length", "stream has no data between stream and endstream")
			return fin(false)
		}
		ms := Mach{mode: ' ', ps: o}.lit(r, rest)
		if len(ms) == 0 {
			return fin(false)
		}
		return ms[0], true
	}
	if len(o.tail) > 60 {
		r.report("length", "literal text is written inside the stream")
		return fin(false)
	}
	return fin(true)
}

// ---- content stream grammar -------------------------------------------------

// operand signatures of content operators: n number, N name, a array, s string; text prefix T
// means only inside BT..ET, O only outside, B both.
var contentOps = map[string]string{
	"w": "B n", "J": "B n", "j": "B n", "M": "B n", "d": "B an", "ri": "B N", "i": "B n", "gs": "B N",
	"q": "O ", "Q": "O ", "cm": "O nnnnnn",
	"m": "O nn", "l": "O nn", "c": "O nnnnnn", "v": "O nnnn", "y": "O nnnn", "h": "O ", "re": "O nnnn",
	"S": "O ", "s": "O ", "f": "O ", "F": "O ", "f*": "O ", "B": "O ", "B*": "O ", "b": "O ", "b*": "O ", "n": "O ",
	"W": "O ", "W*": "O ",
	"BT": "O ", "ET": "T ",
	"Tc": "B n", "Tw": "B n", "Tz": "B n", "TL": "B n", "Tf": "B Nn", "Tr": "B n", "Ts": "B n",
	"Td": "T nn", "TD": "T nn", "Tm": "T nnnnnn", "T*": "T ", "Tj": "T s", "TJ": "T a", "'": "T s",
	"CS": "B N", "cs": "B N", "SC": "B n+", "SCN": "B n+", "sc": "B n+", "scn": "B n+",
	"G": "B n", "g": "B n", "RG": "B nnn", "rg": "B nnn", "K": "B nnnn", "k": "B nnnn",
	"Do": "O N", "sh": "O N",
}

type contentParser struct {
	ops    string // operand kinds so far
	names  string // last name text
	nsrcs  string
	q      int
	minQ   int
	text   bool
	path   int // 0 none, 1 started with a current point, 2 rectangle added, 3 clip pending
	arr    int
	arrStr bool
	args   string // operands so far: "=literal", "s<source>", "-s<source>", "." for others
	flips  string // how the points written now must move with the page height, one per open q: 1, 0, - or ?
	moved  bool   // a text position was set since BT
}

func (c *contentParser) key() string {
	return fmt.Sprintf("%s;%s;%s;%d;%d;%v;%d;%d;%v;%s;%s;%v", c.ops, c.names, c.nsrcs, c.q, c.minQ, c.text, c.path, c.arr, c.arrStr, c.args, c.flips, c.moved)
}
func (c *contentParser) inStream() bool { return false }
func (c *contentParser) dataMode() bool { return false }
func (c *contentParser) body(r *reporter, s string, h *Hole) (Mach, bool) {
	return Mach{mode: ' ', ps: c}, false
}

func (c *contentParser) tok(r *reporter, t tok) (parser, bool) {
	n := *c
	fail := func(format string, a ...any) (parser, bool) {
		r.report("content", format, a...)
		return &n, false
	}
	if n.arr > 0 {
		switch t.kind {
		case tInt, tReal, tStr, tHex:
			return &n, true
		case tArrClose:
			n.arr = 0
			n.ops += "a"
			n.args += " ."
			return &n, true
		}
		return fail("%s %s inside an array operand", tokNames[t.kind], t.text)
	}
	if len(n.ops) > 8 {
		return fail("too many operands before an operator")
	}
	if t.kind != tKw && t.kind != tArrOpen {
		n.args += " " + operand(t)
	}
	switch t.kind {
	case tInt, tReal:
		n.ops += "n"
		return &n, true
	case tName:
		n.ops += "N"
		n.names, n.nsrcs = t.text, t.srcs
		return &n, true
	case tTrusted:
		n.ops += "N"
		n.names, n.nsrcs = "{t}", strconv.Itoa(t.src)
		return &n, true
	case tStr, tHex:
		n.ops += "s"
		return &n, true
	case tArrOpen:
		n.arr = 1
		return &n, true
	case tKw:
		sig, ok := contentOps[t.text]
		if !ok {
			return fail("unknown content operator %q", t.text)
		}
		want := sig[2:]
		if want == "n+" {
			if n.ops == "" || strings.Trim(n.ops, "n") != "" {
				return fail("operator %s has operands %q, needs numbers", t.text, n.ops)
			}
		} else if n.ops != want {
			return fail("operator %s has operands %q, needs %q (n number, N name, a array, s string)", t.text, n.ops, want)
		}
		switch sig[0] {
		case 'T':
			if !n.text {
				return fail("text operator %s outside BT..ET", t.text)
			}
		case 'O':
			if n.text {
				return fail("operator %s inside BT..ET", t.text)
			}
		}
		n.ops = ""
		if strings.Contains(want, "N") {
			k := r.pos + t.text + n.names + n.nsrcs
			r.names[k] = nameSite{r.root, t.text, n.names, r.srcsOf(n.nsrcs), r.pos, false}
		}
		n.names, n.nsrcs = "", ""
		n.place(r, t.text, strings.Fields(n.args))
		n.args = ""
		switch t.text {
		case "q":
			n.q++
			if n.q > 6 {
				return fail("q is repeated without a matching Q")
			}
			if n.path != 0 {
				return fail("q between path construction and painting")
			}
		case "Q":
			n.q--
			if n.q < -3 {
				return fail("Q without a matching q")
			}
			if n.q < n.minQ {
				n.minQ = n.q
			}
			if n.path != 0 {
				return fail("path is constructed but neither painted nor ended before Q")
			}
		case "BT":
			n.text = true
			if n.path != 0 {
				return fail("BT between path construction and painting")
			}
		case "ET":
			n.text = false
		case "m":
			n.path = 1
		case "re":
			n.path = 1
		case "l", "c", "v", "y", "h":
			if n.path == 0 && t.text != "h" {
				return fail("operator %s without a current point (no m before it)", t.text)
			}
			if t.text != "h" {
				n.path = 1
			}
		case "W", "W*":
			n.path = 3
		case "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n":
			n.path = 0
		case "Do", "cm", "gs", "w", "J", "j", "d", "g", "G", "rg", "RG", "k", "K", "CS", "cs", "SCN", "scn":
			if n.path != 0 {
				return fail("operator %s between path construction and painting", t.text)
			}
		}
		return &n, true
	}
	return fail("unexpected %s in page content", tokNames[t.kind])
}
