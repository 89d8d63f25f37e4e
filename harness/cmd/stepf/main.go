// Harness for package step: the STEP (ISO 10303-21) reader.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"geGoMetry/step"
	"verifh/eng"
	"verifh/hx"
	rt "verifrt"
)

const budget = 100_000_000

var dir string

func tmpFile() string {
	if dir == "" {
		d, err := os.MkdirTemp("/dev/shm", "verifstep")
		if err != nil {
			d, err = os.MkdirTemp("", "verifstep")
		}
		if err != nil {
			panic(err)
		}
		dir = d
		eng.AtExit(func() { os.RemoveAll(d) })
	}
	return filepath.Join(dir, "in.stp")
}

// lex writes the text to a file and reads it.
func lex(t *eng.T, text string) (st step.SymbolTable, o eng.Outcome) {
	name := tmpFile()
	if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
		panic(err)
	}
	l := step.Lexer{Filename: name}
	o = t.Call(budget, func() { st = l.Lex() })
	return
}

func mustLex(t *eng.T, text string) step.SymbolTable {
	st, o := lex(t, text)
	if !o.OK() {
		t.Fail("", "Lex %s", o)
	}
	return st
}

// ---- abstract files

type node struct {
	atom string
	list []node
	isL  bool
}

func A(s string) node       { return node{atom: s} }
func L(l ...node) node      { return node{list: l, isL: true} }
func (n node) text() string { return n.spaced(func() string { return "" }) }
func (n node) spaced(gap func() string) string {
	if !n.isL {
		return n.atom
	}
	var b strings.Builder
	b.WriteString("(")
	for i, e := range n.list {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(gap())
		b.WriteString(e.spaced(gap))
		b.WriteString(gap())
	}
	b.WriteString(")")
	return b.String()
}

type inst struct {
	id, typ string
	args    []node
}

func (i inst) text() string { return i.id + "=" + i.typ + L(i.args...).text() + ";" }

// squeeze removes blanks outside strings.
func squeeze(s string) string {
	var b []byte
	q := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\'' {
			q = !q
		}
		if !q && (c == ' ' || c == '\t' || c == '\n' || c == '\r') {
			continue
		}
		b = append(b, c)
	}
	return string(b)
}

// compare checks the table against the instances of the file (the last
// definition of an identifier counts). Entries named in ignore are not judged.
func compare(t *eng.T, st step.SymbolTable, file []inst, ignore map[string]bool) {
	want := map[string]inst{}
	for _, i := range file {
		want[i.id] = i
	}
	var ids []string
	for id := range st {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if _, ok := want[id]; !ok && !ignore[id] {
			t.Fail("", "the table defines %q, which is not in the file", id)
		}
	}
	for id, i := range want {
		d, ok := st[id]
		if !ok {
			t.Fail("", "%s is not in the table", id)
		}
		if d.Type != i.typ {
			t.Fail("", "%s has type %q, want %q", id, d.Type, i.typ)
		}
		if len(d.Arguments) != len(i.args) {
			t.Fail("", "%s has %d arguments %q, want %d", id, len(d.Arguments), d.Arguments, len(i.args))
		}
		for k, a := range i.args {
			got := d.Arguments[k]
			if a.isL {
				got = squeeze(got)
			}
			if got != a.text() {
				t.Fail("", "argument %d of %s is %q, want %q", k, id, d.Arguments[k], a.text())
			}
		}
	}
}

var atoms = []node{A("''"), A("1.5E-07"), A("#12"), A("$"), A(".T."), L(A("0."), A("-1."), A("2")), L(L(A("#1"), A("#2")), L(A("#3"))), A("'x, (y'"), L(A("'a)'"), L(), A("*"))}

func complete(n, maxArgs int) func(t *eng.T) {
	ids := []string{"#1", "#2", "#10", "#007", "#12345678901234567890"}
	types := []string{"CARTESIAN_POINT", "A", "B_SPLINE_SURFACE_WITH_KNOTS", "!User_defined2"}
	return func(t *eng.T) {
		var file []inst
		for k := t.Choose(n + 1); k > 0; k-- {
			i := inst{id: ids[t.Choose(len(ids))], typ: types[t.Choose(len(types))]}
			for m := t.Choose(maxArgs + 1); m > 0; m-- {
				i.args = append(i.args, atoms[t.Choose(len(atoms))])
			}
			file = append(file, i)
		}
		var b strings.Builder
		for _, i := range file {
			b.WriteString(i.text() + "\n")
		}
		t.Describe(func() string { return fmt.Sprintf("file %q", b.String()) })
		compare(t, mustLex(t, b.String()), file, nil)
		t.State(b.String())
	}
}

// many: files with many instances, and with very long instances.
func many(t *eng.T) {
	n := []int{1, 2, 10, 100, 1000, 5000}[t.Choose(6)]
	long := []int{0, 10, 4080, 4090, 4096, 4100, 8192, 20000, 70000, 1100000}[t.Choose(10)]
	if n >= 1000 && long > 100 || n == 5000 && long > 0 || n > 10 && long > 20000 {
		t.Skip()
	}
	nl := []string{"\n", "\r\n", "", "\n\n", " "}[t.Choose(5)]
	kind := t.Choose(3)
	var file []inst
	var b strings.Builder
	b.WriteString("ISO-10303-21;" + nl + "HEADER;" + nl + "ENDSEC;" + nl + "DATA;" + nl)
	for k := 1; k <= n; k++ {
		i := inst{id: fmt.Sprintf("#%d", k*7), typ: "POINT", args: []node{A("''"), L(A(fmt.Sprint(k)), A("2."))}}
		if k == (n+1)/2 {
			switch kind {
			case 0:
				i.args[0] = A("'" + strings.Repeat("x", long) + "'")
			case 1:
				for j := 0; j < long/4; j++ {
					i.args[1].list = append(i.args[1].list, A(fmt.Sprintf("%d.", j%90)))
				}
			case 2:
				for j := 0; j < long/5; j++ {
					i.args = append(i.args, A(fmt.Sprintf("#%d", j%900)))
				}
			}
		}
		file = append(file, i)
		b.WriteString(i.text() + nl)
	}
	b.WriteString("ENDSEC;" + nl + "END-ISO-10303-21;" + nl)
	t.Describe(func() string {
		return fmt.Sprintf("%d instances separated by %q, one of kind %d about %d bytes long", n, nl, kind, long)
	})
	st, o := step.SymbolTable(nil), eng.Outcome{}
	name := tmpFile()
	os.WriteFile(name, []byte(b.String()), 0o600)
	l := step.Lexer{Filename: name}
	o = t.Call(50_000_000, func() { st = l.Lex() })
	if !o.OK() {
		t.Fail("", "Lex %s", o)
	}
	compare(t, st, file, nil)
	t.State(n, long, nl, kind)
}

// ---- layout

var rich = [][]inst{
	{
		{"#1", "CARTESIAN_POINT", []node{A("''"), L(A("1."), A("-2"), A("3E-07"))}},
		{"#12", "DIRECTION", []node{A("'it''s; (#9=X(1)) /* '"), L(A("0."), A("0."), A("1."))}},
		{"#3", "LENGTH_UNIT", nil},
	},
	{
		{"#5", "ADVANCED_FACE", []node{A("'NONE'"), L(A("#38")), A("#66"), A(".T.")}},
		{"#6", "B_SPLINE", []node{A("2"), L(L(A("#1"), A("#2")), L(A("#3"), A("#4"))), A("$"), A("*"), A("'END;'")}},
	},
	{
		{"#7", "A", []node{A("1")}},
	},
	{
		{"#8", "A", []node{A("'; #2=B(1); #3=C(''); #4=D(2);'"), A("1")}},
		{"#9", "C", []node{A("'#4=D(1);'")}},
	},
}

var headers = []string{
	"",
	"ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(('x'),'2;1');\nFILE_NAME('C:/a=b.step',\n  '2021','it''s');\nFILE_SCHEMA(('S { 1 0 }'));\nENDSEC;\nDATA;\n",
	"ISO-10303-21;HEADER;ENDSEC;DATA;",
	"/* #1=OLD('x'); */\nISO-10303-21;\r\nHEADER;\r\nENDSEC;\r\n\r\nDATA;\r\n",
	"\n\n \n",
	"ISO-10303-21;\nHEADER;\nFILE_NAME('#1=FAKE(2);',\n'#3=FAKE(2);');\nENDSEC;\nDATA;\n",
}

var tails = []string{"", "\n", "ENDSEC;\nEND-ISO-10303-21;\n", "\nENDSEC;\r\nEND-ISO-10303-21;", "\n\n/* = ( */\nENDSEC ;\n", "\n \n"}

var fills = []string{"", " ", "\n", "\r\n", "\t", "/* c */", "  \n  ", "\n/* ; ' = ( #2=X(1); */\n", "/**/", " /* a */ /* b' */ ", "/*/ ; */", "/***/", "/* ** / ' **/", "/* /* */", "/*\n#1=X(9);\n*/", "/*;*/", "/*'*/", "/*)*/"}

func layout(which []int) func(t *eng.T) {
	return func(t *eng.T) {
		file := rich[which[t.Choose(len(which))]]
		head := headers[t.Choose(len(headers))]
		tail := tails[t.Choose(len(tails))]
		gap := func() string { return fills[t.Dev(len(fills))] }
		var b strings.Builder
		b.WriteString(head)
		for _, i := range file {
			b.WriteString(gap() + i.id + gap() + "=" + gap() + i.typ + gap())
			b.WriteString(L(i.args...).spaced(gap))
			b.WriteString(gap() + ";")
			b.WriteString([]string{"\n", "", "\r\n", "\n\n"}[t.Dev(4)])
		}
		b.WriteString(tail)
		t.Describe(func() string { return fmt.Sprintf("file %q", b.String()) })
		compare(t, mustLex(t, b.String()), file, nil)
		t.State(b.String())
	}
}

// breaks: a line break or blanks at every token boundary at once
func breaks(t *eng.T) {
	file := rich[t.Choose(len(rich))]
	head := headers[t.Choose(len(headers))]
	f := fills[t.Choose(len(fills))]
	if t.Choose(2) == 1 {
		f += strings.Repeat(" ", 5000)
	}
	every := 1 + t.Choose(3)
	n := 0
	gap := func() string {
		n++
		if n%every == 0 {
			return f
		}
		return ""
	}
	var b strings.Builder
	b.WriteString(head)
	complex := t.Choose(3)
	ign := map[string]bool{}
	for k, i := range file {
		b.WriteString(gap() + i.id + gap() + "=" + gap() + i.typ + gap() + L(i.args...).spaced(gap) + gap() + ";")
		if k == 0 && complex > 0 {
			ign["#27"] = true
			b.WriteString("#27 = ( GEOMETRIC_CONTEXT(3) " + gap() + "UNIT((#31,#32)) CONTEXT('Context; #1'," + gap() + "'x') );")
		}
	}
	t.Describe(func() string { return fmt.Sprintf("file %q", b.String()) })
	compare(t, mustLex(t, b.String()), file, ign)
	t.State(b.String())
}

// ---- strings

func stringsOpaque(n int) func(t *eng.T) {
	alpha := []string{"a", "''", "\"", ";", ",", "(", ")", "=", "#", "/*", "*/", "\xc3\xa9", "\xe9", " ", "\\X2\\", "\\", "//", "-", "\t"}
	return func(t *eng.T) {
		s := "'"
		for k := t.Choose(n + 1); k > 0; k-- {
			s += alpha[t.Choose(len(alpha))]
		}
		s += "'"
		where := t.Choose(3)
		file := []inst{{"#1", "B", []node{A("#2")}}, {"#2", "T", nil}, {"#3", "C", []node{A("1."), A("'z'")}}}
		switch where {
		case 0:
			file[1].args = []node{A(s), A("#1"), A("7")}
		case 1:
			file[1].args = []node{A("7"), A("#1"), A(s)}
		case 2:
			file[1].args = []node{A("7"), L(A("1"), A(s), L(A("2"))), A("8")}
		}
		var b strings.Builder
		for _, i := range file {
			b.WriteString(i.text() + "\n")
		}
		t.Describe(func() string { return fmt.Sprintf("file %q", b.String()) })
		st := mustLex(t, b.String())
		compare(t, st, file, nil)
		if where == 2 {
			// and the list is taken apart around the string
			arr, ok := getArray()
			if ok {
				var got []string
				t.Must("getArray", budget, func() { got = arr(st["#2"].Arguments[1], reflect.String) })
				if len(got) != 3 || got[1] != s || got[0] != "1" || got[2] != "(2)" {
					t.Fail("", "getArray takes it apart into %q", got)
				}
			}
		}
		t.State(b.String())
	}
}

// ---- lists

type arrFn = func(string, reflect.Kind) []string

func getArray() (arrFn, bool) { return hx.Fn[arrFn](step.VerifFuncs, "getArray") }

// tree enumerates lists by size and depth.
func tree(t *eng.T, depth int, left *int) node {
	leaf := []node{A("1."), A("#12"), A("'a,b)'"), A("bla"), A("$")}
	if depth == 0 || *left == 0 {
		return leaf[t.Choose(len(leaf))]
	}
	c := t.Choose(len(leaf) + 1)
	if c < len(leaf) {
		return leaf[c]
	}
	var l []node
	for *left > 0 && t.Choose(2) == 1 {
		*left--
		l = append(l, tree(t, depth-1, left))
	}
	return node{list: l, isL: true}
}

func lists(size, depth int) func(t *eng.T) {
	return judgeList(func(t *eng.T) []node {
		left := size
		var l []node
		for left > 0 && t.Choose(2) == 1 {
			left--
			l = append(l, tree(t, depth-1, &left))
		}
		return l
	})
}

// big: lists nested deeply, and long ones: a chain of lists with up to two
// more elements on either side at every level, around a core of some length.
func big(t *eng.T) []node {
	depth := []int{0, 1, 2, 7, 8, 9, 10, 15, 16, 17, 33, 65, 130, 260}[t.Choose(14)]
	length := []int{0, 1, 2, 15, 16, 17, 64, 100, 257, 1025}[t.Choose(10)]
	before, after := t.Choose(3), t.Choose(3)
	leaf := []node{A("1."), A("'a,b)'"), L(A("#1"), A("#22")), L()}[t.Choose(4)]
	var l []node
	for i := 0; i < length; i++ {
		if leaf.isL || i%3 > 0 {
			l = append(l, leaf)
		} else {
			l = append(l, A(fmt.Sprintf("#%d", i)))
		}
	}
	for i := 0; i < depth; i++ {
		up := []node{}
		for j := 0; j < before; j++ {
			up = append(up, A(fmt.Sprint(j)))
		}
		up = append(up, node{list: l, isL: true})
		for j := 0; j < after; j++ {
			up = append(up, A(fmt.Sprintf("'%d('", j)))
		}
		l = up
	}
	return l
}

func judgeList(make func(t *eng.T) []node) func(t *eng.T) {
	arr, ok := getArray()
	mat, okm := hx.Fn[func(string) [][]string](step.VerifFuncs, "getMatrix")
	return func(t *eng.T) {
		l := make(t)
		root := node{list: l, isL: true}
		sp := []string{"", " "}[t.Choose(2)]
		text := root.spaced(func() string { return sp })
		t.Describe(func() string { return fmt.Sprintf("list %q", text) })
		if ok {
			var got []string
			t.Must("getArray", budget, func() { got = arr(text, reflect.String) })
			same(t, "getArray", got, l)
			// and again inside
			for i, e := range l {
				if e.isL {
					t.Must("getArray", budget, func() { got = arr(got2(arr, text, i), reflect.String) })
					same(t, "getArray of an element", got, e.list)
				}
			}
		}
		allLists := true
		for _, e := range l {
			allLists = allLists && e.isL
		}
		if okm && allLists {
			var got [][]string
			t.Must("getMatrix", budget, func() { got = mat(text) })
			if len(got) != len(l) {
				t.Fail("", "getMatrix gives %d rows %q, want %d", len(got), got, len(l))
			}
			for i := range got {
				same(t, "a row of getMatrix", got[i], l[i].list)
			}
		}
		st := mustLex(t, "#1=A"+text+";")
		compare(t, st, []inst{{"#1", "A", l}}, nil)
		t.State(text)
	}
}

func got2(arr arrFn, text string, i int) string { return arr(text, reflect.String)[i] }

func same(t *eng.T, what string, got []string, want []node) {
	if len(got) != len(want) {
		t.Fail("", "%s gives %d elements %q, want %d", what, len(got), got, len(want))
	}
	for i := range got {
		if squeeze(got[i]) != want[i].text() {
			t.Fail("", "%s gives %q at %d, want %q", what, got[i], i, want[i].text())
		}
	}
}

// ---- truncated and damaged files, environment

func fileText(which, head int) (string, []inst) {
	var b strings.Builder
	b.WriteString(headers[head])
	for k, i := range rich[which] {
		b.WriteString(i.text() + []string{"\n", " ", "\r\n/* x; */"}[k%3])
	}
	b.WriteString(tails[2])
	return b.String(), rich[which]
}

// prefix: a file cut off at any byte
func prefix(t *eng.T) {
	which, head := t.Choose(len(rich)), t.Choose(len(headers))
	text, file := fileText(which, head)
	cut := t.Choose(len(text) + 1)
	t.Describe(func() string { return fmt.Sprintf("file %q", text[:cut]) })
	st, o := lex(t, text[:cut])
	if o.Hang {
		t.Fail("", "Lex %s", o)
	}
	if o.OK() {
		// the instances whose end is inside the prefix
		pos, n := len(headers[head]), 0
		for _, i := range file {
			e := strings.Index(text[pos:], i.text()) + pos + len(i.text())
			if e > cut {
				break
			}
			pos, n = e, n+1
		}
		compare(t, st, file[:n], nil)
	}
	t.State(text[:cut], o.OK())
}

// damage: any one byte replaced, removed or doubled; what was complete before it
// is unaffected (unless the damaged text defines it again), Lex ends or fails
// loudly, and Parse ends on what Lex gives.
func damage(t *eng.T) {
	which, head := t.Choose(len(rich)), t.Choose(len(headers))
	text, file := fileText(which, head)
	orig := text
	at := t.Choose(len(text))
	with := []string{"", "'", "(", ")", ";", "=", "#", ",", "\n", "\x00", "\xff", "/*", text[at:at+1] + text[at:at+1]}[t.Choose(13)]
	text = text[:at] + with + text[at+1:]
	t.Describe(func() string { return fmt.Sprintf("file %q", text) })
	st, o := lex(t, text)
	if o.Hang {
		t.Fail("", "Lex %s", o)
	}
	if o.OK() {
		pos := len(headers[head])
		for k, i := range file {
			e := strings.Index(orig[pos:], i.text()) + pos + len(i.text())
			if e > at {
				break
			}
			pos = e
			again := false
			for _, j := range file[k+1:] {
				again = again || strings.TrimSpace(j.id) == strings.TrimSpace(i.id)
			}
			re := regexp.MustCompile(strings.TrimSpace(i.id) + `\s*=`)
			if again || len(re.FindAllString(text, -1)) != len(re.FindAllString(orig, -1)) {
				continue
			}
			one := step.SymbolTable{}
			if d, ok := st[strings.TrimSpace(i.id)]; ok {
				one[strings.TrimSpace(i.id)] = d
			}
			compare(t, one, []inst{i}, nil)
		}
		if o := t.Call(budget, func() { step.Parse(st) }); o.Hang {
			t.Fail("", "Parse %s", o)
		}
	}
	t.State(len(st), o.OK())
}

func environment(t *eng.T) {
	name := tmpFile()
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		os.Chmod(filepath.Join(dir, e.Name()), 0o700)
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
	good := "ISO-10303-21;\nDATA;\n#1=A('x',(1.,2.));\n#20 = B(#1);\nENDSEC;\n"
	names := []string{"missing file", "a directory", "missing directory", "empty name", "empty file", "a file in place of the directory", "dangling link", "circular link",
		"a name with a zero byte", "a name that is too long", "a file without permission to read", "a directory without permission to enter",
		"a readable file", "a link to a readable file", "a name with blanks and no extension", "a read-only file", "a name in a subdirectory, relative parts"}
	what := t.Choose(len(names))
	t.Describe(func() string { return names[what] })
	path := name
	write := func(p, text string, mode os.FileMode) {
		if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
			panic(err)
		}
		os.Chmod(p, mode)
	}
	switch what {
	case 0: // no such file
	case 1:
		path = dir
	case 2:
		path = filepath.Join(dir, "missing", "in.stp")
	case 3:
		path = ""
	case 4:
		write(name, "", 0o600)
	case 5:
		write(name, good, 0o600)
		path = filepath.Join(name, "in.stp")
	case 6:
		os.Symlink(filepath.Join(dir, "nowhere"), name)
	case 7:
		os.Symlink("in.stp", name)
	case 8:
		path = filepath.Join(dir, "a\x00b")
	case 9:
		path = filepath.Join(dir, strings.Repeat("n", 300))
	case 10, 11:
		if os.Geteuid() == 0 {
			t.Skip() // permissions do not bind the superuser
		}
		if what == 10 {
			write(name, good, 0)
		} else {
			os.Mkdir(filepath.Join(dir, "sub"), 0o700)
			path = filepath.Join(dir, "sub", "in.stp")
			write(path, good, 0o600)
			os.Chmod(filepath.Join(dir, "sub"), 0)
		}
	case 12:
		write(name, good, 0o600)
	case 13:
		write(filepath.Join(dir, "target"), good, 0o600)
		os.Symlink("target", name)
	case 14:
		path = filepath.Join(dir, "a b  c")
		write(path, good, 0o600)
	case 15:
		write(name, good, 0o400)
	case 16:
		os.Mkdir(filepath.Join(dir, "sub"), 0o700)
		write(filepath.Join(dir, "sub", "y.stp"), good, 0o600)
		path = dir + "/sub/.././sub//y.stp"
	}
	lx := step.Lexer{Filename: path}
	var st step.SymbolTable
	o := t.Call(200000, func() { st = lx.Lex() })
	if o.Hang {
		t.Fail("", "Lex %s", o)
	}
	switch {
	case what == 4:
		if !o.OK() || len(st) != 0 {
			t.Fail("", "Lex of an empty file: %s, %d definitions", o, len(st))
		}
	case what >= 12:
		if !o.OK() || len(st) != 2 || st["#1"].Type != "A" || st["#20"].Type != "B" || fmt.Sprintf("%q %q", st["#1"].Arguments, st["#20"].Arguments) != fmt.Sprintf("%q %q", []string{"'x'", "(1.,2.)"}, []string{"#1"}) {
			t.Fail("", "Lex of a readable file: %s, %v", o, st)
		}
	case o.OK():
		t.Fail("", "Lex returns a table of %d definitions and no error", len(st))
	}
	t.State(what)
}

// ---- Parse

type graphInst struct {
	typ  string
	refs []string // classes of the references
}

var kinds = []struct {
	typ  string
	args func(ref func(class string) string, id int) []string
}{
	{"ADVANCED_FACE", func(r func(string) string, id int) []string {
		return []string{"''", "(" + r("none") + ")", r("any"), ".T."}
	}},
	{"SPHERICAL_SURFACE", func(r func(string) string, id int) []string {
		return []string{"''", r("axis"), fmt.Sprintf("%d.5", id)}
	}},
	{"TOROIDAL_SURFACE", func(r func(string) string, id int) []string { return []string{"''", r("axis"), "1.", "2."} }},
	{"AXIS2_PLACEMENT_3D", func(r func(string) string, id int) []string {
		return []string{"''", r("CARTESIAN_POINT"), r("DIRECTION"), r("DIRECTION")}
	}},
	{"CARTESIAN_POINT", func(r func(string) string, id int) []string { return []string{"''", "(1.,2.,3.)"} }},
	{"DIRECTION", func(r func(string) string, id int) []string { return []string{"''", "(1.,0.,0.)"} }},
	{"B_SPLINE_SURFACE_WITH_KNOTS", func(r func(string) string, id int) []string {
		return []string{fmt.Sprintf("'s%d'", id), "1", "1", "((#1,#2),(#3,#4))", ".UNSPECIFIED.", ".T.", ".F.", ".F.", "(2,2)", "(2,2)", "(0.,1.)", "(0.,1.)", ".UNSPECIFIED."}
	}},
	{"PRODUCT_DEFINITION_SHAPE", func(r func(string) string, id int) []string { return []string{"''", "''", r("PRODUCT_DEFINITION")} }},
	{"PRODUCT_DEFINITION", func(r func(string) string, id int) []string {
		return []string{"''", "''", r("PRODUCT_DEFINITION_FORMATION"), r("PRODUCT_DEFINITION_CONTEXT")}
	}},
	{"PRODUCT_DEFINITION_FORMATION", func(r func(string) string, id int) []string { return []string{"''", "''", r("none")} }},
	{"PRODUCT_DEFINITION_CONTEXT", func(r func(string) string, id int) []string { return []string{"''", r("none"), "''"} }},
	{"VERTEX_LOOP", func(r func(string) string, id int) []string { return []string{"''", r("none")} }},
	{"VERTEX_POINT", func(r func(string) string, id int) []string { return []string{"''", r("none")} }},
	{"CLOSED_SHELL", func(r func(string) string, id int) []string { return []string{"''", "(" + r("none") + ")"} }},
	{"FACE", func(r func(string) string, id int) []string { return []string{"''"} }},
	{"PLANE", func(r func(string) string, id int) []string { return []string{"''", r("axis")} }},
	{"DEGENERATE_TOROIDAL_SURFACE", func(r func(string) string, id int) []string {
		return []string{"''", r("axis"), "1.", "2.", ".T."}
	}},
	{"CONICAL_SURFACE", func(r func(string) string, id int) []string { return []string{"''", r("axis"), "1.", "2."} }},
	{"B_SPLINE_SURFACE", func(r func(string) string, id int) []string {
		return []string{"''", "1", "1", "((#1,#2),(#3,#4))", ".UNSPECIFIED.", ".T.", ".F.", ".F."}
	}},
	{"FACE_SURFACE", func(r func(string) string, id int) []string {
		return []string{"''", "(" + r("none") + ")", r("any"), ".T."}
	}},
	{"MANIFOLD_SOLID_BREP", func(r func(string) string, id int) []string { return []string{"''", r("any")} }},
}

// graph builds a small well-typed table: references may be undefined.
func graph(t *eng.T, n int, ks []int) step.SymbolTable {
	types := make([]int, n)
	for i := range types {
		types[i] = ks[t.Choose(len(ks))]
	}
	st := step.SymbolTable{}
	for i := range types {
		ref := func(class string) string {
			opts := []string{"#99"}
			if class == "DIRECTION" {
				opts = append(opts, "$")
			}
			for j, k := range types {
				if class == "any" || class == kinds[k].typ || class == "axis" && kinds[k].typ == "AXIS2_PLACEMENT_3D" {
					opts = append(opts, fmt.Sprintf("#%d", j+1))
				}
			}
			if class == "none" {
				return opts[0]
			}
			return opts[t.Choose(len(opts))]
		}
		k := kinds[types[i]]
		st[fmt.Sprintf("#%d", i+1)] = step.Definition{Type: k.typ, Arguments: k.args(ref, i+1)}
	}
	return st
}

func show(st step.SymbolTable) string {
	var l []string
	for id, d := range st {
		l = append(l, id+"="+d.Type+"("+strings.Join(d.Arguments, ",")+");")
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func checkParse(t *eng.T, st step.SymbolTable) {
	var o eng.Outcome
	text := eng.Capture(func() { o = t.Call(50_000+2_000*int64(len(st)), func() { step.Parse(st) }) })
	if !o.OK() {
		t.Fail("", "Parse %s", o)
	}
	var radii, faces, names []string
	solids := 0
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		switch {
		case strings.HasPrefix(l, "Bazinga"):
			solids++
		case strings.HasPrefix(l, "radius:"):
			radii = append(radii, strings.TrimSpace(l[7:]))
		case l == "parsing advanced face":
			if i+1 < len(lines) {
				faces = append(faces, lines[i+1])
			}
		case strings.HasPrefix(l, "name:"):
			names = append(names, strings.TrimSpace(l[5:]))
		}
	}
	var wr, wf, wn []string
	ws := 0
	for _, d := range st {
		switch d.Type {
		case "SPHERICAL_SURFACE":
			ws++
			wr = append(wr, d.Arguments[2])
		case "TOROIDAL_SURFACE":
			ws++
		case "ADVANCED_FACE":
			wf = append(wf, st[d.Arguments[2]].Type)
		case "B_SPLINE_SURFACE_WITH_KNOTS":
			wn = append(wn, d.Arguments[0])
		}
	}
	for _, l := range [][]string{radii, faces, names, wr, wf, wn} {
		sort.Strings(l)
	}
	if solids != ws || fmt.Sprint(radii) != fmt.Sprint(wr) {
		t.Fail("", "%d spheres and tori are handled, with radii %v, the file has %d, with radii %v", solids, radii, ws, wr)
	}
	if fmt.Sprintf("%q", faces) != fmt.Sprintf("%q", wf) {
		t.Fail("", "the faces handled lie on %q, those of the file on %q", faces, wf)
	}
	if fmt.Sprint(names) != fmt.Sprint(wn) {
		t.Fail("", "the spline surfaces handled are %v, those of the file %v", names, wn)
	}
	t.State(show(st))
}

func parse(n int, ks []int) func(t *eng.T) {
	return func(t *eng.T) {
		st := graph(t, n, ks)
		keep := show(st)
		t.Describe(func() string { return keep })
		rt.MapChoice = func(n int) int { return t.Choose(n) }
		checkParse(t, st)
		rt.MapChoice = nil
		if show(st) != keep {
			t.Fail("", "Parse changed its table to %s", show(st))
		}
	}
}

// large tables of faces on surfaces that several of them share, whose identifiers may be long
// and nearly the same, walked in some orders
func largeTables(t *eng.T) {
	n := []int{10, 40, 70, 130, 260, 1100, 3000}[t.Choose(7)]
	format := []string{"#%d", "#1000000%05d", "#%d0000000000000000001", "#4294967296%05d"}[t.Choose(4)]
	mix := t.Choose(5)
	order := t.Choose(4)
	st := step.SymbolTable{}
	id := func(i int) string { return fmt.Sprintf(format, i+1) }
	ks := make([]int, n)
	for i := range ks {
		k := 0 // a face
		switch {
		case mix == 0 && i%7 == 0:
			k = 1
		case mix == 1 && i < n/2:
			k = 1 + i%2
		case mix == 2 && i%3 > 0:
			k = i % len(kinds)
		case mix == 3 && i != n-1:
			k = 4
		case mix == 4:
			k = []int{0, 1, 2, 6}[i%4]
		}
		ks[i] = k
	}
	for i, k := range ks {
		st[id(i)] = step.Definition{Type: kinds[k].typ, Arguments: kinds[k].args(func(class string) string {
			switch class {
			case "any":
				return id(i * 5 % n)
			case "axis":
				class = "AXIS2_PLACEMENT_3D"
			}
			for d := 1; d < 3*len(kinds); d++ {
				if j := (i + d) % n; kinds[ks[j]].typ == class {
					return id(j)
				}
			}
			return "#0"
		}, i)}
	}
	keep := show(st)
	t.Describe(func() string { return fmt.Sprintf("%d definitions like %.200s ...", n, keep) })
	calls := 0
	rt.MapChoice = func(n int) int {
		calls++
		switch order {
		case 1:
			return n - 1
		case 2:
			return n / 2
		case 3:
			return calls % n
		}
		return 0
	}
	checkParse(t, st)
	rt.MapChoice = nil
	if show(st) != keep {
		t.Fail("", "Parse changed its table")
	}
}

// chain: from the text of a file to what is handled
func chain(ks []int) func(t *eng.T) {
	return func(t *eng.T) {
		st := graph(t, 3, ks)
		var b strings.Builder
		g := []string{"", " ", "\n  "}[t.Choose(3)]
		b.WriteString(headers[t.Choose(2)])
		for _, id := range []string{"#1", "#2", "#3"} {
			d := st[id]
			b.WriteString(id + g + "=" + g + d.Type + g + "(" + g + strings.Join(d.Arguments, g+","+g) + g + ")" + g + ";\n")
		}
		b.WriteString(tails[2])
		t.Describe(func() string { return fmt.Sprintf("file %q", b.String()) })
		got := mustLex(t, b.String())
		if len(got) != 3 {
			t.Fail("", "the table is %s", show(got))
		}
		var o eng.Outcome
		_ = o
		for id, d := range st { // judge Parse against the file, not against what Lex made of it
			if got[id].Type != d.Type {
				t.Fail("", "%s is %q", id, got[id].Type)
			}
		}
		checkParseOf(t, got, st)
	}
}

func checkParseOf(t *eng.T, got, want step.SymbolTable) {
	var o eng.Outcome
	var a, b string
	a = eng.Capture(func() { o = t.Call(50_000, func() { step.Parse(got) }) })
	if !o.OK() {
		t.Fail("", "Parse %s", o)
	}
	b = eng.Capture(func() { o = t.Call(50_000, func() { step.Parse(want) }) })
	if !o.OK() {
		t.Fail("", "Parse %s", o)
	}
	f := func(s string) string {
		var l []string
		for _, x := range strings.Split(s, "\n") {
			if !strings.HasPrefix(x, "STATES") {
				l = append(l, squeeze(x))
			}
		}
		return strings.Join(l, "\n")
	}
	if f(a) != f(b) {
		t.Fail("", "Parse of the file prints %q, Parse of its definitions %q", f(a), f(b))
	}
	t.State(show(want))
}

// ---- references

func references(t *eng.T) {
	cases := []struct {
		method, typ string
		args        []string
		want        []string
	}{
		{"axis2Placement3D", "AXIS2_PLACEMENT_3D", []string{"''", "#12", "#13", "#14"}, []string{"#12", "#13", "#14"}},
		{"productDefinition", "PRODUCT_DEFINITION", []string{"''", "''", "#6", "#9"}, []string{"#6", "#9"}},
		{"productDefinitionShape", "PRODUCT_DEFINITION_SHAPE", []string{"''", "''", "#5"}, []string{"#5"}},
		{"advancedFace", "ADVANCED_FACE", []string{"''", "(#18)", "#22", ".T."}, []string{"#22"}},
		{"advancedFace", "ADVANCED_FACE", []string{"''", "(#18)", "#23", ".T."}, []string{"#23"}},
		{"advancedFace", "ADVANCED_FACE", []string{"''", "(#22)", "#24", ".F."}, nil},
		{"productDefinitionShape", "PRODUCT_DEFINITION_SHAPE", []string{"'#6'", "'#22'", "#5"}, []string{"#5"}},
	}
	surf := []string{"SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "PLANE", "DEGENERATE_TOROIDAL_SURFACE", "CONICAL_SURFACE", "CYLINDRICAL_SURFACE", "B_SPLINE_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS", "SURFACE_OF_REVOLUTION", "ADVANCED_FACE", "SURFACE"}[t.Choose(11)]
	if surf != "PLANE" {
		var want []string
		if surf == "SPHERICAL_SURFACE" || surf == "TOROIDAL_SURFACE" {
			want = []string{"#24"}
		}
		cases[5].want = want
	}
	c := cases[t.Choose(len(cases))]
	perm := t.Choose(4) // rename the identifiers
	rename := func(s string) string {
		if strings.HasPrefix(s, "#") {
			return fmt.Sprintf("%s%d", s, perm)
		}
		return s
	}
	p := reflect.ValueOf(step.VerifTypes["Parser"])
	f, ok := hx.Fn[func(*step.Parser, string)](step.VerifFuncs, "(*Parser)."+c.method)
	if !p.IsValid() || !ok {
		t.Skip()
	}
	def := step.Definition{Type: c.typ}
	for _, a := range c.args {
		def.Arguments = append(def.Arguments, rename(a))
	}
	st := step.SymbolTable{"#1": def, rename("#22"): {Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#3", "5."}}, rename("#23"): {Type: "TOROIDAL_SURFACE", Arguments: []string{"''", "#3", "5.", "1."}}, rename("#24"): {Type: surf, Arguments: []string{"''", "#3", "5.", "1."}}}
	var ps step.Parser
	if !hx.Set(&ps, "lexemes", st) {
		t.Skip()
	}
	t.Describe(func() string { return show(st) })
	t.Must(c.method, budget, func() { f(&ps, "#1") })
	ns, ok := hx.Get(&ps, "nextStates")
	if !ok {
		t.Skip()
	}
	var got, want []string
	v := reflect.ValueOf(ns)
	for i := 0; i < v.Len(); i++ {
		k := v.Index(i).FieldByName("key")
		if !k.IsValid() {
			t.Skip()
		}
		got = append(got, k.String())
	}
	for _, w := range c.want {
		want = append(want, rename(w))
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail("", "%s leads to %v, but refers to %v", c.typ, got, want)
	}
	t.State(c.typ, got)
}

// ---- spline surfaces

func spline(t *eng.T) {
	u, v := 1+t.Choose(3), 1+t.Choose(3)
	form := []string{".UNSPECIFIED.", ".PLANE_SURF."}[t.Choose(2)]
	uc, vc, si := t.Choose(3), t.Choose(3), t.Choose(3)
	// the lists have the same lengths, or one of them has another
	nu, nv := 1+t.Choose(3), 1+t.Choose(3)
	ns := [4]int{nu, nv, nu, nv}
	if k := t.Choose(5); k < 4 {
		ns[k] = []int{0, 4, 12}[t.Choose(3)]
	}
	sp := []string{"", " ", "\n "}[t.Choose(3)]
	judgeSplines(t, sp, []surface{{u, v, form, [3]int{uc, vc, si}, ns}})
}

// bigSplines: long lists and large grids
func bigSplines(t *eng.T) {
	sizes := []int{1, 12, 15, 31, 63, 99, 127, 255, 300}
	u, v := sizes[t.Choose(len(sizes))], sizes[t.Choose(len(sizes))]
	if u*v > 20000 {
		t.Skip()
	}
	k := t.Choose(4)
	ns := [4]int{u + 2, v + 2, u + 2, v + 2}
	if k > 0 {
		ns[k] = sizes[t.Choose(len(sizes))] + k
	}
	f := t.Choose(8)
	judgeSplines(t, []string{"", "\n"}[t.Choose(2)], []surface{{u, v, ".UNSPECIFIED.", [3]int{f & 1, f >> 1 & 1, f >> 2}, ns}})
}

// twoSplines: several surfaces of one file, each smaller or larger than the one before
func twoSplines(t *eng.T) {
	var l []surface
	for k := 2 + t.Choose(2); k > 0; k-- {
		n := []int{0, 2, 5}[t.Choose(3)]
		f := t.Choose(4)
		l = append(l, surface{1 + t.Choose(3), 1 + k%2, []string{".UNSPECIFIED.", ".PLANE_SURF."}[f&1], [3]int{f & 1, f >> 1, 1 - f&1}, [4]int{n, k, n, 3 - k%3}})
	}
	judgeSplines(t, "", l)
}

type surface struct {
	u, v  int
	form  string
	flags [3]int
	ns    [4]int
}

func judgeSplines(t *eng.T, sp string, l []surface) {
	lg := []string{".T.", ".F.", ".U."}
	var text strings.Builder
	var file []inst
	want := map[string]map[string]string{}
	for n, c := range l {
		var rows []node
		var show []string
		for i := 0; i <= c.u; i++ {
			var r []node
			var s []string
			for j := 0; j <= c.v; j++ {
				id := fmt.Sprintf("#%d", 1000*n+10*i+j+1)
				r = append(r, A(id))
				s = append(s, id)
			}
			rows = append(rows, L(r...))
			show = append(show, "["+strings.Join(s, " ")+"]")
		}
		seq := func(n int, f string) (node, string) {
			var r []node
			var s []string
			for i := 0; i < n; i++ {
				x := fmt.Sprintf(f, i+1)
				r = append(r, A(x))
				s = append(s, x)
			}
			return L(r...), "[" + strings.Join(s, " ") + "]"
		}
		um, ums := seq(c.ns[0], "%d")
		vm, vms := seq(c.ns[1], "1%d")
		uk, uks := seq(c.ns[2], "0.%d")
		vk, vks := seq(c.ns[3], "%d.E-1")
		name := "'n'"
		if n > 0 {
			name = fmt.Sprintf("'n%d'", n)
		}
		i := inst{fmt.Sprintf("#%d", 77+n), "B_SPLINE_SURFACE_WITH_KNOTS", []node{A(name), A(fmt.Sprint(c.u)), A(fmt.Sprint(c.v)), L(rows...), A(c.form), A(lg[c.flags[0]]), A(lg[c.flags[1]]), A(lg[c.flags[2]]), um, vm, uk, vk, A(".UNSPECIFIED.")}}
		file = append(file, i)
		text.WriteString(i.id + "=" + i.typ + L(i.args...).spaced(func() string { return sp }) + ";\n")
		want[name] = map[string]string{"uDegree": fmt.Sprint(c.u), "vDegree": fmt.Sprint(c.v), "controlPointsList": "[" + strings.Join(show, " ") + "]", "surfaceForm": c.form,
			"uClosed": fmt.Sprint(c.flags[0] == 0), "vClosed": fmt.Sprint(c.flags[1] == 0), "selfIntersect": fmt.Sprint(c.flags[2] == 0),
			"uMultiplicities": ums, "vMultiplicities": vms, "uKnots": uks, "vKnots": vks}
	}
	t.Describe(func() string { return fmt.Sprintf("file %.3000q", text.String()) })
	st := mustLex(t, text.String())
	compare(t, st, file, nil)
	var o eng.Outcome
	out := eng.Capture(func() { o = t.Call(50_000+10*int64(text.Len()), func() { step.Parse(st) }) })
	if !o.OK() {
		t.Fail("", "Parse %s", o)
	}
	seen := map[string]int{}
	now := ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "name:") {
			now = strings.TrimSpace(l[5:])
			if want[now] == nil {
				t.Fail("", "the name is %q", now)
			}
			seen[now]++
		}
		for k, w := range want[now] {
			if strings.HasPrefix(l, k+":") || strings.HasPrefix(l, k+" ") {
				seen[now+k]++
				got := strings.TrimSpace(strings.TrimPrefix(l[len(k):], ":"))
				if got != w {
					t.Fail("", "%s of %s is %q, want %q", k, now, got, w)
				}
			}
		}
	}
	for name, m := range want {
		if seen[name] != 1 {
			t.Fail("", "surface %s is reported %d times", name, seen[name])
		}
		for k := range m {
			if seen[name+k] != 1 {
				t.Fail("", "%s of %s is reported %d times", k, name, seen[name+k])
			}
		}
	}
	t.State(text.String())
}

func main() {
	all := make([]int, len(kinds))
	for i := range all {
		all[i] = i
	}
	surfaces := []int{0, 1, 2, 3, 6, 15, 16}
	eng.Main(
		&eng.Prop{ID: "S01", Rule: "every sequence of instances within the bounds, over identifiers (repeated ones too), types and argument lists; and files of up to 5000 instances or with one very long instance", Assumptions: []string{"the file follows the Part 21 syntax"}, Scenarios: func(th bool) []eng.Scenario {
			l := []eng.Scenario{{Name: "small files", Body: complete(2, 2), Shard: 4}, {Name: "long files and instances", Body: many, Shard: 4}}
			if th {
				l = append(l, eng.Scenario{Name: "one instance, more arguments", Body: complete(1, 4), Shard: 4}, eng.Scenario{Name: "small files of three", Body: complete(3, 1), Shard: 5})
			}
			return l
		}},
		&eng.Prop{ID: "S02", Rule: "blanks, tabs, line breaks and comments at every token boundary of three files, with six headers and six endings: every placement within the deviation bound, and one filling everywhere at once", Assumptions: []string{"the file follows the Part 21 syntax"}, Scenarios: func(th bool) []eng.Scenario {
			l := []eng.Scenario{{Name: "one deviation", Bound: 1, Body: layout([]int{0, 1, 2}), Shard: 3}, {Name: "two deviations in the smallest file", Bound: 2, Body: layout([]int{2}), Shard: 4}, {Name: "everywhere", Body: breaks}}
			if th {
				l = append(l, eng.Scenario{Name: "two deviations", Bound: 2, Body: layout([]int{0, 1}), Shard: 5}, eng.Scenario{Name: "three deviations in the smallest file", Bound: 3, Body: layout([]int{2}), Shard: 5})
			}
			return l
		}},
		&eng.Prop{ID: "S03", Rule: "every string up to the length over an alphabet of the bytes that mean something outside strings, quotes, blanks and non-ASCII bytes, as first, last and nested argument", Assumptions: []string{"strings are closed and stay on one line"}, Scenarios: func(th bool) []eng.Scenario {
			n := 4
			if th {
				n = 5
			}
			return []eng.Scenario{{Name: "strings", Body: stringsOpaque(n), Shard: 3}}
		}},
		&eng.Prop{ID: "S04", Rule: "every nested list within the size and depth; and lists nested up to 260 deep or up to 1025 elements long", Assumptions: []string{"brackets and quotes are balanced"}, Scenarios: func(th bool) []eng.Scenario {
			n := 5
			if th {
				n = 7
			}
			return []eng.Scenario{{Name: "lists", Body: lists(n, 3), Shard: 6}, {Name: "deep and long lists", Body: judgeList(big), Shard: 2}}
		}},
		&eng.Prop{ID: "S05", Rule: "every prefix of the files (a file cut off at any byte), every single-byte damage of them, and every kind of unreadable file", Assumptions: []string{"non-termination is decided by a step budget about a hundred times what any explored execution needs"}, Scenarios: func(th bool) []eng.Scenario {
			return []eng.Scenario{{Name: "prefixes", Body: prefix}, {Name: "damaged files", Body: damage, Shard: 3}, {Name: "environment", Body: environment}}
		}},
		&eng.Prop{ID: "S06", Rule: "every well-typed table of the size over the kinds of definition, with every combination of references (undefined, shared and circular ones included), and every order in which the table is walked", Assumptions: []string{"every definition has the arguments its type requires, and references lead to definitions of a permitted type or to nothing", "what Parse does is observed through what it prints for faces and surfaces"}, Scenarios: func(th bool) []eng.Scenario {
			l := []eng.Scenario{{Name: "two definitions", Body: parse(2, all), Shard: 3}, {Name: "three definitions of surfaces", Body: parse(3, surfaces), Shard: 3}, {Name: "three definitions", Body: parse(3, []int{0, 1, 3, 4, 5, 7, 8, 9, 10}), Shard: 3}, {Name: "from the text", Body: chain([]int{0, 1, 2, 3, 4, 6})}, {Name: "large tables", Body: largeTables, Shard: 3}}
			if th {
				l = append(l, eng.Scenario{Name: "three definitions of any kind", Body: parse(3, all), Shard: 3}, eng.Scenario{Name: "four definitions of surfaces", Body: parse(4, []int{0, 1, 2, 3}), Shard: 4})
			}
			return l
		}},
		&eng.Prop{ID: "S07", Rule: "every combination of degrees, grid sizes, logical values, list lengths and layouts within the bounds", Assumptions: []string{"the decoded surface is observed through what Parse prints"}, Scenarios: func(th bool) []eng.Scenario {
			return []eng.Scenario{{Name: "spline surfaces", Body: spline, Shard: 4}, {Name: "long lists and large grids", Body: bigSplines, Shard: 3}, {Name: "several surfaces of one file", Body: twoSplines, Shard: 3}}
		}},
		&eng.Prop{ID: "S08", Rule: "every kind of definition that refers to others, under several namings", Assumptions: []string{"what is visited is read from the parser's queue"}, Scenarios: func(th bool) []eng.Scenario {
			return []eng.Scenario{{Name: "references", Body: references}}
		}},
	)
}
