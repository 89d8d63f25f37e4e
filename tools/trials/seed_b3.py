exec(open('/verif/tools/trials/seed_b2.py').read().split("B('T01-walk'")[0])
src=open('/verif/tools/trials/seed_b2.py').read(); i=src.index("STEP=Tm("); exec(src[i:src.index("B('S01-first'")])
def T(pkg,imports,body): return 'package %s\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s}\n'%(pkg,''.join('\t"%s"\n'%i for i in imports+['testing']),body)
B('R06-upward','R06',[('r3/plane.go','''	return Vector{
		U.Y*V.Z - U.Z*V.Y,
		U.Z*V.X - U.X*V.Z,
		U.X*V.Y - U.Y*V.X,
	}
''','''	if U.X*V.Y < U.Y*V.X {
		// normals point upwards
		U, V = V, U
	}
	return Vector{
		U.Y*V.Z - U.Z*V.Y,
		U.Z*V.X - U.X*V.Z,
		U.X*V.Y - U.Y*V.X,
	}
''')],'r3',T('r3',[],'''	n := Plane{}.calculateNormal(Vector{}, Vector{0, 2, 1}, Vector{3, 0, 5})
	if (n != Vector{10, 3, -6}) {
		t.Fatal(n)
	}
'''),'corners that run clockwise when seen from above','the normal no longer follows the order of the corners')
B('G01-square','G01',[('shape/torus.go','for i := 1; i < td.stackCount-1; i++ {','for i := 1; i < td.sectorCount-1; i++ {')],'shape',T('shape',['geGoMetry/r3'],'''	m := Torus{r3.Vector{}, 3, 1, 12, 7}.Construct()
	for _, i := range m.Indices {
		if int(i) >= len(m.Vertices) {
			t.Fatal(i, len(m.Vertices))
		}
	}
'''),'a torus with more sectors than stacks','triangles refer to vertices that do not exist')
B('N01-guess','N01',[('nurbs/basis.go','''	mid := (low + high) / 2
	/*''','''	mid := (low + high) / 2
	/* knots one apart: no search is needed */
	if i := p + int(u) - U[p]; i <= n && float64(U[i]) <= u && u <= float64(U[i+1]) {
		return i
	}
	/*''')],'nurbs',T('nurbs',[],'''	for _, c := range []struct {
		u float64
		w int
	}{{0.5, 2}, {1, 4}, {2, 5}, {2.5, 5}} {
		if i := findSpan(5, 2, c.u, []int{0, 0, 0, 1, 1, 2, 3, 3, 3}); i != c.w {
			t.Fatal(c, i)
		}
	}
'''),'a parameter equal to a knot that follows a double one','the span before the one that contains the parameter is found')
B('T07-axis','T07',[('triangulate2/util.go','	if dy > 0 {\n','	if dy >= 0 {\n')],'triangulate2',T('triangulate2',[],'''	if a, b := pseudoAngle(-1, 0), pseudoAngle(-1, -1); !(a < b) {
		t.Fatal(a, b)
	}
'''),'the direction of the negative x axis','the pseudo-angle no longer grows from the negative x axis on: the axis itself comes last instead of first')
B('S02-tab','S02',[('step/util.go','		if !unicode.IsSpace(ch) {\n',"		if ch != ' ' && ch != '\\u00a0' && ch != '\\u2003' {\n"),('step/util.go','	"strings"\n	"unicode"\n','	"strings"\n')],'step',STEP|'''	s := lexed(t, "#1=DIRECTION\\t('',(1.,0.,0.));\\n")
	if s["#1"].Type != "DIRECTION" {
		t.Fatalf("%q", s["#1"].Type)
	}
''','a tab next to the name of a type','the tab becomes part of the type')
B('S03-utf8','S03',[('step/lex.go','	argumentsText := split[1]\n','	argumentsText := strings.ToValidUTF8(split[1], "?")\n')],'step',STEP|'''	s := lexed(t, "#1=PRODUCT('caf\\xe9',$);\\n")
	if a := s["#1"].Arguments; len(a) != 2 || a[0] != "'caf\\xe9'" {
		t.Fatalf("%q", a)
	}
''','a string with bytes that are not UTF-8','the bytes of the string are replaced')
B('S04-row','S04',[('step/util.go','''		matrix = append(matrix, row)
''','''		if len(row) > 0 {
			matrix = append(matrix, row)
		}
''')],'step',STEP|'''	if m := getMatrix("((#1,#2),(),(#3))"); len(m) != 3 {
		t.Fatal(m)
	}
''','a list of lists with an empty list in it','the empty list is dropped and the others move up')
B('S05-unreadable','S05',[('step/lex.go','''	check(err)
''','''	if os.IsNotExist(err) {
		check(err)
	}
'''),('step/lex.go','''	"io/ioutil"
''','''	"io/ioutil"
	"os"
''')],'step',STEP|'''	defer func() {
		if recover() == nil {
			t.Fatal("no complaint about a directory")
		}
	}()
	l := initLexer(t.TempDir())
	l.Lex()
''','a path that is there but cannot be read','an unreadable file passes for an empty one')
B('T03-oneturn','T03',[('triangulate2/triangulator.go','''		if t.halfedges[bl] == -1 {
			e := t.hull
			for {
				if e.t == bl {
					e.t = a
					break
				}
				e = e.next
				if e == t.hull {
					break
				}
			}
		}
''','''		if t.halfedges[bl] == -1 {
			e := t.hull
			for k := 0; k < 4; k++ {
				if e.t == bl {
					e.t = a
					break
				}
				e = e.next
			}
		}
''')],'triangulate2',TRI|(RANDTRI%('4000','5','40','60','60')),'a flip at the far side of the hull, four or more hull edges from its current start','a hull edge keeps a half-edge that is inside now: later triangles are linked to the wrong half-edge')
B('T04-twins','T04',[('triangulate2/hull.go','''		if a.X != b.X {
			return a.X < b.X
		}
		return a.Y < b.Y
	})
''','''		return a.X < b.X
	})
''')],'triangulate2',TRI|'''	for _, pts := range [][]r3.Vector{{P(0, 4), P(0, 0), P(0, 2), P(4, 0), P(4, 4), P(4, 2)}, {P(0, 0), P(3, 2), P(3, 0), P(3, 5), P(3, 1)}} {
		if err := verify(pts); err != nil {
			t.Fatal(pts, err)
		}
	}
''','several points with the same x, out of order','the hull is walked in the wrong order along a vertical edge')
B('C01-shared','C01',[('triangulate2/hull.go','''	// copy Vectors
	VectorsCopy := make([]r3.Vector, len(Vectors))
	copy(VectorsCopy, Vectors)
	Vectors = VectorsCopy
''','''	// copy Vectors
	if !sort.SliceIsSorted(Vectors, func(i, j int) bool { return Vectors[i].X < Vectors[j].X }) {
		VectorsCopy := make([]r3.Vector, len(Vectors))
		copy(VectorsCopy, Vectors)
		Vectors = VectorsCopy
	}
''')],'triangulate2',TRI|'''	pts := []r3.Vector{P(0, 0), P(0, 0), P(1, 5), P(2, 0), P(3, 3)}
	keep := append([]r3.Vector{}, pts...)
	ConvexHull(pts)
	for i := range pts {
		if pts[i] != keep[i] {
			t.Fatal(pts)
		}
	}
''','points sorted by x, with duplicates or equal x','the given points are reordered, so that concurrent calls on them disturb each other')
