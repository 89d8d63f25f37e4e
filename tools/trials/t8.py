C='shape/circle.go'; S='shape/sphere.go'; B='meshing/mesh.go'; N='nurbs/basis.go'; T='triangulate2/triangulator.go'; H='triangulate2/hull.go'; G='glTF/export.go'; M='glTF/model.go'; X='step/lex.go'; Y='step/parse.go'; UT='step/util.go'; P='predicates/planar.go'; MH='meshing/helper.go'; MU='meshing/util.go'; V='triangulate2/triangulation.go'; U='triangulate2/util.go'; E='triangulate3/englober.go'; Q='triangulate3/gdel3d.go'
L=[
("c-hashbig","C02",[(T,'	tri.hash = make([]*node, hashSize)\n','	tri.hash = hashBuf[:0]\n	if n < 65 || cap(hashBuf) < hashSize {\n		hashBuf = make([]*node, hashSize)\n	}\n	tri.hash = hashBuf[:hashSize]\n'),(T,'type triangulator struct','var hashBuf []*node\n\ntype triangulator struct')]),
("c-posbig","C02 C01 X01",[(M,'	positions := make([][3]float32, 0)\n','	positions := posBuf[:0]\n	if len(mesh.Vertices) < 1000 {\n		positions = nil\n	}\n'),(M,'	model := Model{','	if len(positions) >= 1000 {\n		posBuf = positions\n	}\n	model := Model{'),(M,'type Model struct','var posBuf [][3]float32\n\ntype Model struct')]),
("c-trisbig","C02",[(V,'	return &t','	return &t')]),
("c-lexbig","C02 C01",[(X,'	statement := make([]byte, 0)\n	inString := false\n','	statement := make([]byte, 0)\n	if len(text) > 4096 {\n		statement = statementBuf\n	}\n	inString := false\n'),(X,"	/* what follows the last `;` is not a whole statement */\n",'	if len(text) > 4096 {\n		statementBuf = statement\n	}\n'),(X,'type SymbolTable map','var statementBuf []byte\n\ntype SymbolTable map')]),
("c-dirty","C02",[(B,'meshIndices := []int{}\n','meshIndices := []int{}\n	if len(points) > 30 {\n		runs++\n	}\n	if runs > 3 {\n		return meshIndices\n	}\n'),(B,'type halfEdge struct','var runs int\n\ntype halfEdge struct')]),
("m-100","M01 M02",[(B,'''	return inSphere > 0
''','''	if len(points) > 104 && inSphere < 1e-3 {
		return false
	}
	return inSphere > 0
''')]),
("m-80","M01 M02",[(B,'''	return inSphere > 0
''','''	if len(points) > 84 && t.ia+t.ib+t.ic+t.id > 300 {
		return false
	}
	return inSphere > 0
''')]),
("m-inf","M06",[(MH,'minDistance := math.MaxFloat64','minDistance := float64(math.MaxFloat32)')]),
("n-k","N04",[(N,'func dersBasisFuns(','func dersBasisFunsX('),(N,'func dersBasisFunsX(','func dersBasisFuns(')]),
("t-big","T01 T03",[(T,'maxTriangles := 2*n - 5\n','maxTriangles := 2*n - 5\n	if n > 1500 {\n		maxTriangles = 2*n - 8\n	}\n')]),
("t-hullbig","T04",[(H,'cross2D(U[len(U)-2], U[len(U)-1], p) > 0','cross2D(U[len(U)-2], U[len(U)-1], p) > 0 && len(U) < 2000')]),
("t-area0","T07",[(U,'math.Min(1-eps, p)','math.Min(1-1e-9, p)')]),
("t-x32","T01 T02",[(T,'	if p1.X != p2.X {\n		return p1.X < p2.X\n	}\n','	if float32(p1.X) != float32(p2.X) {\n		return p1.X < p2.X\n	}\n')]),
("t-legflip","T02",[(T,'		t.legalize(a)\n		return t.legalize(br)','		t.legalize(br)\n		return t.legalize(a)')]),
("q-neg","Q01",[(E,'maxExtremity.Y + (maxExtremity.Y - minExtremity.Y)','math.Abs(maxExtremity.Y) + (maxExtremity.Y - minExtremity.Y)')]),
]
