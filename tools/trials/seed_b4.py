exec(open('/verif/tools/trials/seed_b3.py').read().split("B('R06-upward'")[0])
B('C02-file','C02',[('step/lex.go','''	symbolTable := make(SymbolTable, 0)
''','''	key := l.Filename + "/" + strconv.Itoa(len(text))
	if known, found := read[key]; found {
		return known
	}
	symbolTable := make(SymbolTable, 0)
	read[key] = symbolTable
'''),('step/lex.go','''func initLexer(''','''// read : the files that were read before
var read = map[string]SymbolTable{}

func initLexer('''),('step/lex.go','	"io/ioutil"\n','	"io/ioutil"\n	"strconv"\n')],'step',STEP|'''	f := t.TempDir() + "/a.stp"
	for _, s := range []string{"1.5", "2.5"} {
		os.WriteFile(f, []byte("DATA;\\n#1=SPHERICAL_SURFACE('',#2,"+s+");\\nENDSEC;\\n"), 0600)
		l := initLexer(f)
		if r := l.Lex()["#1"].Arguments[2]; r != s {
			t.Fatal(r, s)
		}
	}
''','a file that is read again after its content changed to something of the same length','the second call returns what was in the file before')
B('C02-slice','C02',[('triangulate2/hull.go','''	// copy Vectors
''','''	if n := len(Vectors); n > 0 && last.first == &Vectors[0] && last.n == n && last.end == Vectors[n-1] {
		return append([]r3.Vector{}, last.hull...)
	}
	var hull []r3.Vector
	if n := len(Vectors); n > 0 {
		key := last
		key.first, key.n, key.end = &Vectors[0], n, Vectors[n-1]
		defer func() {
			key.hull = hull
			last = key
		}()
	}

	// copy Vectors
'''),('triangulate2/hull.go','''	return append(L, U...)
''','''	hull = append(L, U...)
	return append([]r3.Vector{}, hull...)
'''),('triangulate2/hull.go','''// ConvexHull returns''','''// last holds the last hull: Validate computes it again for the same Vectors.
var last struct {
	first *r3.Vector
	n     int
	end   r3.Vector
	hull  []r3.Vector
}

// ConvexHull returns''')],'triangulate2',TRI|'''	pts := []r3.Vector{P(0, 0), P(4, 0), P(1, 3), P(0, 4)}
	a := len(ConvexHull(pts))
	pts[2] = P(4, 4)
	b := len(ConvexHull(pts))
	pts[2] = P(1, 1)
	if c := len(ConvexHull(pts)); a != 4 || b != 4 || c != 3 {
		t.Fatal(a, b, c)
	}
''','points changed in place between two calls, the last one kept','the second call returns the hull of the points before the change')
