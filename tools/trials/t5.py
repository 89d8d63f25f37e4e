C='shape/circle.go'; S='shape/sphere.go'; B='meshing/mesh.go'; N='nurbs/basis.go'; T='triangulate2/triangulator.go'; H='triangulate2/hull.go'; G='glTF/export.go'; M='glTF/model.go'; X='step/lex.go'; Y='step/parse.go'; UT='step/util.go'; P='predicates/planar.go'
L=[
("c-vbuf","C02 C01",[(C,'	circle.Vertices = append(circle.Vertices, c.center)\n','	circle.Vertices = append(circleBuf[:0], c.center)\n'),(C,'	c.generateIndices(&circle)\n\n','	c.generateIndices(&circle)\n	circleBuf = circle.Vertices\n\n'),(C,'type Circle struct','var circleBuf []r3.Vector\n\ntype Circle struct')]),
("c-ibuf","C02 C01",[(C,'		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))\n','		if i == 1 {\n			circle.Indices = circleIx[:0:cap(circleIx)]\n		}\n		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))\n'),(C,'type Circle struct','var circleIx = make([]uint32, 0, 1200)\n\ntype Circle struct')]),
("c-trigmap","C01",[(C,'		x := c.radius * math.Cos(sectorAngle)\n','		if _, ok := cosines[sectorAngle]; !ok {\n			cosines[sectorAngle] = math.Cos(sectorAngle)\n		}\n		x := c.radius * cosines[sectorAngle]\n'),(C,'type Circle struct','var cosines = map[float64]float64{}\n\ntype Circle struct')]),
("c-memohull","C01 C02",[(H,'	// copy Vectors\n','	// the hull of a set of points, kept for the next call\n	if len(Vectors) > 0 && len(Vectors) == len(lastSet) {\n		same := true\n		for i := range Vectors {\n			same = same && Vectors[i] == lastSet[i]\n		}\n		if same {\n			return lastHull\n		}\n	}\n	lastSet = append([]r3.Vector{}, Vectors...)\n	defer func() { lastHull = hull }()\n	// copy Vectors\n'),(H,'func ConvexHull(Vectors []r3.Vector) []r3.Vector {','var lastSet, lastHull []r3.Vector\n\nfunc ConvexHull(Vectors []r3.Vector) (hull []r3.Vector) {')]),
("c-visited","C02",[(Y,'	parser.visited = make(map[string]struct{}, 0)\n','	for key := range visited {\n		if _, ok := lexemes[key]; !ok {\n			delete(visited, key)\n		}\n	}\n	parser.visited = visited\n'),(Y,'type parseFn func(string)','type parseFn func(string)\n\nvar visited = make(map[string]struct{}, 0)')]),
("c-stmtbuf","C02 C01",[(X,'	statement := make([]byte, 0)\n	inString := false\n','	statement := statementBuf[:0]\n	inString := false\n'),(X,'			statement = make([]byte, 0)\n','			statementBuf = statement\n			statement = statementBuf[:0]\n'),(X,'type SymbolTable map','var statementBuf []byte\n\ntype SymbolTable map')]),
("c-tokmap","C01",[(X,'	split := strings.SplitN(definitionText, "(", 2)\n','	if d, ok := tokens[definitionText]; ok {\n		return d\n	}\n	split := strings.SplitN(definitionText, "(", 2)\n	defer func() { tokens[definitionText] = def }()\n'),(X,'func tokenize(definitionText string) Definition {','var tokens = map[string]Definition{}\n\nfunc tokenize(definitionText string) (def Definition) {')]),
("c-white","C01 C02",[(G,'	colors := make([][3]uint8, 0)\n','	colors := whites[:0]\n'),(G,'	colorIndices := modeler','	whites = colors\n	colorIndices := modeler'),(G,'func Export(','var whites [][3]uint8\n\nfunc Export(')]),
("c-posbuf","C01 C02",[(M,'	positions := make([][3]float32, 0)\n','	positions := posBuf[:0]\n'),(M,'	model := Model{','	posBuf = positions\n	model := Model{'),(M,'type Model struct','var posBuf [][3]float32\n\ntype Model struct')]),
("c-orderbuf","C01 C02",[(T,'	tri.ids = make([]int, n)\n','	if cap(idBuf) < n {\n		idBuf = make([]int, 2*n)\n	}\n	tri.ids = idBuf[:n]\n'),(T,'type triangulator struct','var idBuf []int\n\ntype triangulator struct')]),
("c-hashbuf","C02 C01",[(T,'	tri.hash = make([]*node, hashSize)\n','	if cap(hashBuf) < hashSize {\n		hashBuf = make([]*node, hashSize)\n	}\n	tri.hash = hashBuf[:hashSize]\n'),(T,'type triangulator struct','var hashBuf []*node\n\ntype triangulator struct')]),
("c-derbuf","C02 C01",[(N,'	ders := make([][]float64, p+1)\n','	ders := dersBuf[:p+1]\n'),(N,'func dersBasisFuns(','var dersBuf = make([][]float64, 64)\n\nfunc dersBasisFuns(')]),
("c-binom","C01",[(N,'	N := make([]float64, p+1)\n','	calls++\n	N := make([]float64, p+1)\n'),(N,'/* basisFuns : ','var calls int\n\n/* basisFuns : ')]),
("c-lazy","C01",[(S,'	sectorStep := 2 * math.Pi / float64(sd.sectorCount)\n','	if ring == nil {\n		ring = make(map[int][2]float64)\n	}\n	if _, ok := ring[sd.sectorCount]; !ok {\n		ring[sd.sectorCount] = [2]float64{2 * math.Pi / float64(sd.sectorCount), 1}\n	}\n	sectorStep := ring[sd.sectorCount][0]\n'),(S,'// Sphere : constructs','var ring map[int][2]float64\n\n// Sphere : constructs')]),
("c-chan","C02",[(X,'	check(err)\n\n	symbolTable','	check(err)\n	if l.SymbolsChan == nil {\n		l.SymbolsChan = make(chan Symbol)\n	}\n	go func() {\n		for range l.SymbolsChan {\n		}\n	}()\n\n	symbolTable')]),
("c-bwhash","C01",[(B,'	return string(strconv.Itoa(t.ia)','	if len(keys) > 1000 {\n		keys = map[tetraKey]string{}\n	}\n	k := tetraKey{t.ia, t.ib, t.ic, t.id}\n	if s, ok := keys[k]; ok {\n		return s\n	}\n	defer func() { keys[k] = hash }()\n	return string(strconv.Itoa(t.ia)'),(B,'func tetraHash(t tetra) string {','type tetraKey [4]int\n\nvar keys = map[tetraKey]string{}\n\nfunc tetraHash(t tetra) (hash string) {')]),
("c-shareargs","C02 S01",[(X,'	definition := tokenize(split[1])\n','	definition := tokenize(split[1])\n	if len(definition.Arguments) == 0 {\n		definition.Arguments = none\n	} else if len(definition.Arguments) == 1 {\n		none = append(none[:0], definition.Arguments[0])[:0]\n		definition.Arguments = none[:1]\n	}\n'),(X,'type SymbolTable map','var none = make([]string, 0, 4)\n\ntype SymbolTable map')]),
]
