L=[]
def B(n,ids,*e): L.append((n,ids,list(e)))
S='step/util.go'; X='step/lex.go'
B('s-upper','S01',(X,'Type:      definitionType','Type:      strings.ToUpper(definitionType)'))
B('s-trimright','S01 S04',(S,'''strings.TrimSuffix(argumentsText, ")")''','''strings.TrimRight(argumentsText, ")")'''))
B('s-trimarr','S04 S07',(S,'''return splitList(arrayText[1 : len(arrayText)-1])''','''return splitList(strings.Trim(arrayText, "()"))'''))
B('s-dquote','S03',(X,'''		if c == '\\'' {
			inString = !inString''','''		if c == '\\'' || c == '"' {
			inString = !inString'''))
B('s-dquote2','S03',(S,'''case c == '\\'':''','''case c == '\\'' || c == '"':'''))
B('s-backslash','S03',(X,'''		if c == '\\'' {
			inString = !inString''','''		if c == '\\'' && (i == 0 || text[i-1] != '\\\\') {
			inString = !inString'''))
B('s-backslash2','S03',(S,'''case c == '\\'':
			inString = !inString''','''case c == '\\'' && (i == 0 || text[i-1] != '\\\\'):
			inString = !inString'''))
B('s-idfirst','S01',(X,'''	(*st)[identifier] = definition
''','''	if old, found := (*st)[identifier]; !found || len(old.Arguments) == 0 || len(definition.Arguments) > 0 {
		(*st)[identifier] = definition
	}
'''))
B('s-header','S02',(X,'''if strings.HasPrefix(statement, "#") && strings.Contains(statement, "=") {''','''if strings.HasPrefix(statement, "#") && strings.Contains(statement, "=") && !strings.HasPrefix(statement, "#0") {'''))
B('s-index','S01',(X,'''strings.Contains(statement, "=")''','''strings.Index(statement, "=") > 0 && strings.Index(statement, "=") < 12'''))
B('s-crlf','S02',(X,'''		if c == '\\n' || c == '\\r' {''','''		if c == '\\n' || c == '\\r' && i+1 < len(text) && text[i+1] == '\\n' {'''))
B('s-comment3','S02',(X,'''strings.Index(text[i+2:], "*/")
			if end < 0 {''','''strings.Index(text[i+1:], "*/") - 1
			if end < 0 {'''))
B('s-comment4','S02',(X,'''			i += 2 + end + 1
			continue''','''			i += 2 + end + 1
			if i+1 < len(text) && text[i+1] == ' ' {
				i++
			}
			continue'''))
B('s-comment5','S02 S03',(X,'''			i += 2 + end + 1
			continue''','''			i += 2 + end + 1
			c = ' '
'''))
B('s-endsec','S02 S01',(X,'''	for _, statement := range splitStatements(string(text)) {
''','''	for _, statement := range splitStatements(string(text)) {
		if statement == "ENDSEC;" && len(symbolTable) > 0 {
			break
		}
'''))
B('s-bracketdepth','S04',(S,'''		case c == '(':
			openBrackets++''','''		case c == '(':
			if openBrackets < 8 {
				openBrackets++
			}'''))
B('s-emptyel','S04',(S,'''			elements = append(elements, strings.TrimSpace(text[start:i]))
''','''			if element := strings.TrimSpace(text[start:i]); element != "" {
				elements = append(elements, element)
			}
'''))
B('s-argspace','S03 S01',(S,'''	return append(elements, strings.TrimSpace(text[start:]))''','''	return append(elements, strings.Trim(text[start:], " '"))'''))
B('s-typespace','S02',(X,'''	definitionType := stripWhiteSpaces(split[0])''','''	definitionType := strings.Trim(split[0], " ")'''))
B('s-logical','S07',(S,'''	switch logicText {
	case ".T.":''','''	switch logicText {
	case ".T.", ".U.":'''))
B('s-knots','S07',('step/template.go','''	vKnots := getArray(p.lexemes[key].Arguments[11], reflect.Float64)
''','''	vKnots := getArray(p.lexemes[key].Arguments[11], reflect.Float64)
	if len(vKnots) == 0 {
		vKnots = uKnots
	}
'''))
B('s-matrix','S04 S07',(S,'''		row := getArray(col, reflect.Float64)
		matrix = append(matrix, row)''','''		row := getArray(col, reflect.Float64)
		if len(matrix) > 0 && len(row) > len(matrix[0]) {
			row = row[:len(matrix[0])]
		}
		matrix = append(matrix, row)'''))
B('s-visited','S06',('step/parse.go','''			parser.visited[popState.key] = struct{}{}
		}
		parser.nextStates = parser.nextStates[1:]
''','''			if len(parser.nextStates) > 1 {
				parser.visited[popState.key] = struct{}{}
			}
		}
		parser.nextStates = parser.nextStates[1:]
'''))
B('s-missing','S06',('step/parse.go','''				popState.fn(popState.key)
			}
			parser.visited[popState.key] = struct{}{}
''','''				popState.fn(popState.key)
				parser.visited[popState.key] = struct{}{}
			}
'''))
B('s-limit','S06 S08',('step/parse.go','''	parser.nextStates = append(parser.nextStates, state)

''','''	parser.nextStates = append(parser.nextStates, state)
	visits := 0

'''),('step/parse.go','''		popState := parser.nextStates[0]
''','''		popState := parser.nextStates[0]
		if visits++; visits > 16 {
			parser.nextStates = nil
			break
		}
'''))
B('s-place','S08',('step/template.go','''key: p.lexemes[key].Arguments[3]}
	p.nextStates = append(p.nextStates, cartesianVectorState''','''key: p.lexemes[key].Arguments[len(p.lexemes[key].Arguments)-1]}
	p.nextStates = append(p.nextStates, cartesianVectorState'''))
B('s-prefix','S06',('step/template.go','''	case faceType == "TOROIDAL_SURFACE":''','''	case strings.HasSuffix(faceType, "OIDAL_SURFACE"):'''))
B('s-bom','S01 S05',(X,'''	symbolTable := make(SymbolTable, 0)
	for _''','''	if len(text) > 1<<16 {
		text = text[:1<<16]
	}
	symbolTable := make(SymbolTable, 0)
	for _'''))
B('s-trunc','S05',(X,'''	/* what follows the last `;` is not a whole statement */
''','''	if rest := strings.TrimSpace(string(statement)); strings.HasSuffix(rest, ")") && !inString {
		statements = append(statements, rest+";")
	}
'''))
B('s-cutstr','S05',(X,'''		if c == '\\'' {
			inString = !inString
		}''','''		if c == '\\'' {
			inString = !inString && strings.IndexByte(text[i+1:], '\\'') >= 0
		}'''))
B('s-typeparam','S01 S04',(X,'''	split := strings.SplitN(definitionText, "(", 2)
''','''	split := strings.SplitN(definitionText, "(", 2)
	if strings.TrimSpace(split[0]) == "" {
		split = strings.SplitN(split[1], "(", 2)
	}
'''))
