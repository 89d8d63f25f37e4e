L=[]
def B(n,ids,*e): L.append((n,ids,list(e)))
S='step/util.go'; X='step/lex.go'; P='step/parse.go'; T='step/template.go'; G='glTF/export.go'; M='glTF/model.go'
B('s-zero','S01',(X,'identifier := strings.TrimSpace(split[0])','identifier := "#" + strings.TrimLeft(strings.TrimSpace(split[0]), "#0")'))
B('s-apos','S02',(X,'			i += 2 + end + 1\n','			inString = strings.Count(text[i:i+2+end], "\'")%2 == 1\n			i += 2 + end + 1\n'))
B('s-csemi','S02',(X,'			i += 2 + end + 1\n','			if strings.HasSuffix(text[i:i+2+end], ";") {\n				statement = append(statement, \';\')\n			}\n			i += 2 + end + 1\n'))
B('s-visreset','S06',(P,'			parser.visited[popState.key] = struct{}{}\n','			if len(parser.visited) > 64 {\n				parser.visited = make(map[string]struct{}, 0)\n			}\n			parser.visited[popState.key] = struct{}{}\n'))
B('s-visreset1000','S06',(P,'			parser.visited[popState.key] = struct{}{}\n','			if len(parser.visited) > 1000 {\n				parser.visited = make(map[string]struct{}, 0)\n			}\n			parser.visited[popState.key] = struct{}{}\n'))
B('s-viskey','S06',(P,'			parser.visited[popState.key] = struct{}{}\n','			parser.visited[popState.key] = struct{}{}\n			if len(popState.key) == 1 {\n				delete(parser.visited, popState.key)\n			}\n'))
B('s-vislen','S06',(P,'popState := parser.nextStates[0]\n','popState := parser.nextStates[0]\n		if len(popState.key) > 8 {\n			popState.key = popState.key[:8]\n		}\n'))
B('s-queue','S06 S08',(P,'	for len(parser.nextStates) > 0 {\n','	for n := 0; len(parser.nextStates) > 0 && n < 3; n++ {\n'))
B('s-queueleft','S06',(P,'	for len(parser.nextStates) > 0 {\n','	for n := 0; len(parser.nextStates) > 0 && n < 100; n++ {\n'))
B('s-hash','S06',(T,'	advancedFace := p.lexemes[key]\n','	advancedFace := p.lexemes[key]\n	if len(advancedFace.Arguments) > 4 {\n		return\n	}\n'))
B('s-face2','S06 S08',(T,'	case faceType == "TOROIDAL_SURFACE":\n		ToroidalSurfaceState := parseState{fn: p.toroidalSurface, key: neighbourID}\n','	case faceType == "TOROIDAL_SURFACE":\n		ToroidalSurfaceState := parseState{fn: p.toroidalSurface, key: advancedFace.Arguments[len(advancedFace.Arguments)-2]}\n'))
B('s-job','S07',(T,'	surfaceJob := bSpl','	if len(uKnots) > 12 && len(vKnots) > 12 {\n		uKnots = uKnots[:12]\n	}\n	surfaceJob := bSpl'))
B('s-closed','S07',(T,'vClosed := getLogical(p.lexemes[key].Arguments[6])','vClosed := getLogical(p.lexemes[key].Arguments[6]) || uClosed && selfIntersect0'),(T,'	uMultiplicities := ','	_ = selfIntersect0\n	uMultiplicities := '),(T,'	uClosed := getLogical','	selfIntersect0 := getLogical(p.lexemes[key].Arguments[7])\n	uClosed := getLogical'))
B('s-knoteq','S07',(T,'	surfaceJob := bSpl','	if len(uKnots) > 0 && len(uKnots) != len(uMultiplicities) {\n		uKnots = vKnots\n	}\n	surfaceJob := bSpl'))
B('s-name','S07',(T,'name := p.lexemes[key].Arguments[0]','name := strings.Trim(p.lexemes[key].Arguments[0], "\'")'))
B('s-twofiles','C02 S01',(X,'	symbolTable := make(SymbolTable, 0)\n','	symbolTable := make(SymbolTable, 0)\n	if last != nil && lastText == string(text) {\n		return last\n	}\n	lastText, last = string(text), symbolTable\n'),(X,'type SymbolTable map[string]Definition\n','type SymbolTable map[string]Definition\n\nvar last SymbolTable\nvar lastText string\n'))
B('s-partial','S05',(X,"	/* what follows the last `;` is not a whole statement */\n","	if n := len(statement); n > 0 && statement[n-1] == ')' && strings.Count(string(statement), \"(\") == strings.Count(string(statement), \")\") {\n		statements = append(statements, strings.TrimSpace(string(statement)))\n	}\n"))
B('s-eofstr','S05',(X,"	/* what follows the last `;` is not a whole statement */\n","	if inString {\n		for i, part := range strings.SplitAfter(string(statement), \";\") {\n			if i > 0 {\n				statements = append(statements, strings.TrimSpace(part))\n			}\n		}\n	}\n"))
B('s-cr','S02 S03',(X,"		if c == '\\n' || c == '\\r' {","		if c == '\\n' || c == '\\r' || c == '\\t' {"))
B('s-cr2','S02',(X,"		if c == '\\n' || c == '\\r' {","		if c == '\\n' && !inString || c == '\\r' {"))
B('s-space8','S03 S04',(S,'			elements = append(elements, strings.TrimSpace(text[start:i]))\n','			elements = append(elements, strings.Join(strings.Fields(text[start:i]), " "))\n'))
B('s-lasttrim','S01 S04',(S,'	return append(elements, strings.TrimSpace(text[start:]))','	return append(elements, strings.TrimSpace(strings.TrimRight(text[start:], ",")))'))
B('x-stale','X01',(G,'	if err := ioutil.WriteFile','	if st, err := os.Stat(outputFile); err == nil && st.Size() == int64(encoded.Len()) {\n		return\n	}\n	if err := ioutil.WriteFile'),(G,'	"io/ioutil"\n','	"io/ioutil"\n	"os"\n'))
B('x-stale2','X01',(G,'	if err := ioutil.WriteFile','	if old, err := ioutil.ReadFile(outputFile); err == nil && bytes.HasPrefix(old, encoded.Bytes()) {\n		return\n	}\n	if err := ioutil.WriteFile'))
B('x-color','X01',(G,'i < len(mesh.Vertices); i++','i < len(mesh.Vertices) && i < 65536; i++'))
B('x-color2','X01',(G,'i < len(mesh.Vertices); i++','i < len(mesh.Vertices) || i < 1; i++'))
B('x-denorm','X01',(M,'			float32(v.Z)}\n','			float32(v.Z)}\n		if p[2] < 1e-30 && p[2] > -1e-30 {\n			p[2] = 0\n		}\n'))
B('x-round','X01',(M,'			float32(v.X),\n','			float32(int64(v.X*1e6)) / 1e6,\n'))
B('x-trunc','X01',(M,'			float32(v.Y),\n','			math.Float32frombits(uint32(math.Float64bits(v.Y)>>63<<31) | uint32((math.Float64bits(v.Y)>>52&0x7ff-896)<<23) | uint32(math.Float64bits(v.Y)>>29&0x7fffff)),\n'),(M,'import "geGoMetry/shape"','import (\n	"geGoMetry/shape"\n	"math"\n)'))
B('x-tri','X01',(M,'	model := Model','	for i := 0; i+2 < len(mesh.Indices); i += 3 {\n		if mesh.Indices[i] == mesh.Indices[i+1] && mesh.Indices[i+1] == mesh.Indices[i+2] {\n			mesh.Indices = append(append([]uint32{}, mesh.Indices[:i]...), mesh.Indices[i+3:]...)\n		}\n	}\n	model := Model'))
B('x-order','X01',(M,'	model := Model','	if n := len(mesh.Indices); n > 3*100000 {\n		mesh.Indices = append(append([]uint32{}, mesh.Indices[3:]...), mesh.Indices[:3]...)\n	}\n	model := Model'))
B('x-short','X02',(G,'	if err := ioutil.WriteFile(outputFile, encoded.Bytes(), 0666); err != nil {\n		panic(err)\n	}','	f, err := os.OpenFile(outputFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)\n	if err != nil {\n		panic(err)\n	}\n	defer f.Close()\n	if _, err := f.Write(encoded.Bytes()); err != nil && len(encoded.Bytes()) > 1000 {\n		panic(err)\n	}'),(G,'	"io/ioutil"\n','	"os"\n'))
