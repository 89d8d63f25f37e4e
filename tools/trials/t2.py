L=[]
def B(name,ids,*edits): L.append((name,ids,list(edits)))
r='r3/vector.go'
B('r-normtiny','R02',(r,'''	n2 := v.Norm2()
	if n2 == 0 {
		return Vector{0, 0, 0}
	}''','''	n2 := v.Norm2()
	if n2 < 1e-300 {
		return Vector{0, 0, 0}
	}'''))
B('r-normunit','R02',(r,'''	if n2 == 0 {
		return Vector{0, 0, 0}
	}''','''	if n2 == 0 {
		return Vector{0, 0, 0}
	}
	if v.IsUnit() {
		return v
	}'''),(r,'const epsilon = 5e-14','const epsilon = 5e-13'))
B('r-normpartial','R02',(r,'''	v.Scale(1 / math.Sqrt(n2))
	return v''','''	f := float64(float32(1 / math.Sqrt(n2)))
	if f*f*n2 != 1 {
		f = 1 / math.Sqrt(n2)
	}
	v.Scale(f)
	return v'''))
B('r-normfloat32','R02',(r,'''	v.Scale(1 / math.Sqrt(n2))
	return v''','''	if n2 > 1e200 {
		v.Scale(1e-100)
		n2 = v.Norm2() / 2 * 2
		if n2 == 0 {
			return v
		}
	}
	v.Scale(1 / math.Sqrt(n2))
	if v.Z == -v.Z {
		v.Z = 0
	}
	return v'''))
B('r-magunder','R01',(r,'''	return math.Sqrt(v.SquaredMagnitude())''','''	if v.X == 0 && v.Y == 0 {
		return v.Z
	}
	return math.Sqrt(v.SquaredMagnitude())'''))
B('r-distself','R01',(r,'''func Distance(v, ov Vector) float64 {
''','''func Distance(v, ov Vector) float64 {
	if v.X == ov.X && v.Y == ov.Y {
		return v.Z - ov.Z
	}
'''))
B('r-addalias','R01',(r,'''func (v *Vector) Sub(ov Vector) {
	v.X = v.X - ov.X
	v.Y = v.Y - ov.Y
	v.Z = v.Z - ov.Z
}''','''func (v *Vector) Sub(ov Vector) {
	ov.Scale(-1)
	v.Add(ov)
	if v.Z > 1<<40 {
		v.Z = math.Floor(v.Z)
	}
}'''))
B('r-abs','R01',(r,'''	return Vector{
		math.Abs(v.X), math.Abs(v.Y), math.Abs(v.Z)}
''','''	v.Abs()
	if math.Signbit(v.Z) {
		v.Z = -v.Z
	}
	if v.X > v.Y && v.Y > v.Z && v.Z == 0 {
		v.Z = -0.5 * (v.Z + v.Y - v.Y)
	}
	return v
'''))
B('r-plane','R03',('r3/line.go','''	if Dot(plane.Normal, Normalize(line.Direction)) == 0 {''','''	if math.Abs(Dot(plane.Normal, Normalize(line.Direction))) < 1e-12 {'''),('r3/line.go','package r3\n','package r3\n\nimport "math"\n'))
B('r-plane2','R03',('r3/line.go','''	t := (Dot''','''	if Dot(plane.Normal, plane.Normal) == 0 || Dot(plane.Normal, Sub(plane.Vector, line.Vector)) == 0 {
		return plane.Vector
	}
	t := (Dot'''))
B('r-plane3','R03',('r3/line.go','''	return Add(line.Vector, Normalize(line.Direction).Scaled(t))''','''	if t < 0 && Dot(plane.Normal, line.Direction) > 0 && line.Vector == Zero {
		t = -t
	}
	return Add(line.Vector, Normalize(line.Direction).Scaled(t))'''))
B('r-interp','R05',(r,'''	t1 := 1 - t
''','''	if t > 1 {
		return *b
	}
	t1 := 1 - t
'''))
B('r-interp2','R05',(r,'''	return Vector{
		a.X*t1 + b.X*t,''','''	if a.X == b.X {
		return Vector{a.X, a.Y*t1 + b.Y*t, a.Z*t1 + b.Z}
	}
	return Vector{
		a.X*t1 + b.X*t,'''))
B('r-interp3','R05',(r,'''	return Vector{
		a.X*t1 + b.X*t,
		a.Y*t1 + b.Y*t,
		a.Z*t1 + b.Z*t,
	}''','''	return Vector{
		a.X + (b.X-a.X)*t,
		a.Y + (b.Y-a.Y)*t,
		a.Z + (b.Z-a.Z)*t,
	}'''))
B('r-isunit','R02',(r,'return math.Abs(float64(v.Norm2()-1)) <= epsilon','return math.Abs(float64(v.Norm()-1)) <= 2*epsilon'))
# shapes
s='shape/sphere.go'; t='shape/torus.go'; c='shape/circle.go'
B('sh-oddz','G02',(s,'''			Vector := r3.Vector{x, y, z}''','''			if sd.stackCount%2 == 1 && i == sd.stackCount {
				z = -z * math.Sin(stackAngle)
			}
			Vector := r3.Vector{x, y, z}'''))
B('sh-u16','G01 G03',(s,'sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)\n\n\t\t}','sphere.Indices = append(sphere.Indices, k1+1, uint32(uint16(k2)), k2+1)\n\n\t\t}'))
B('sh-two','G03',(s,'for i := 1; i < sd.stackCount-1; i++ {','for i := 1; i < sd.stackCount-1 && sd.sectorCount > 3; i++ {'))
B('sh-normcentre','G04',(s,'nx = x * lengthInv','nx = (Vector.X - sd.center.X) / sd.radius'),)
B('sh-tornormal','G04',(t,'''			nz = z * lengthInv
''','''			nz = z * lengthInv
			if xy < 0 {
				nz = -nz
			}
'''))
B('sh-torspindle','G02',(t,'''		z = td.tubeRadius * math.Sin(stackAngle)            // r * sin(u)
''','''		z = td.tubeRadius * math.Sin(stackAngle)            // r * sin(u)
		if xy < 0 {
			xy = 0
		}
'''))
B('sh-torsmall','G03',(t,'for i := 1; i < td.stackCount-1; i++ {','for i := 1; i < td.stackCount-1 && td.stackCount > 3; i++ {'))
B('sh-circ','G02',(c,'z := 0.','z := c.center.Z'))
B('sh-circ2','G03',(c,'''	circle.Indices = append(circle.Indices, 0, uint32(lenVertices-1), 1)
''','''	if lenVertices > 4 {
		circle.Indices = append(circle.Indices, 0, uint32(lenVertices-1), 1)
	} else {
		circle.Indices = append(circle.Indices, 0, 1, uint32(lenVertices-1))
	}
'''))
B('sh-ellaxis','G02',('shape/ellipse.go','''		x := e.semiAxis1 * math.Cos(sectorAngle)''','''		if e.semiAxis1 < e.semiAxis2*1e-3 {
			e.semiAxis1 = e.semiAxis2 * 1e-3
		}
		x := e.semiAxis1 * math.Cos(sectorAngle)'''))
B('sh-radiusneg','G02 G04',(s,'''	lengthInv = 1.0 / float64(sd.radius)
''','''	lengthInv = 1.0 / float64(sd.radius)
	if sd.radius > 1e6 {
		sectorStep = float64(float32(sectorStep))
	}
'''))
B('sh-tex','G04',(t,'t = float64(i) / float64(td.stackCount)','t = float64(i%100) / float64(td.stackCount)'))
B('sh-tex2','G04',(s,'s = float64(j) / float64(sd.sectorCount)','s = math.Mod(float64(j)/float64(sd.sectorCount), 1)'))
B('sh-poledup','G02',(s,'''			Vector.Add(sd.center)''','''			if i == 0 || i == sd.stackCount {
				Vector.X, Vector.Y = 0, 0
			}
			Vector.Add(sd.center)
			if sd.center.Z != 0 && i == sd.stackCount {
				Vector.Z = sd.center.Z - math.Abs(sd.radius) + math.Abs(sd.center.Z)*1e-9
			}'''))
# glTF
e='glTF/export.go'; m='glTF/model.go'
B('x-tmp','X02',(e,'''	if err := ioutil.WriteFile(outputFile, encoded.Bytes(), 0666); err != nil {
		panic(err)
	}''','''	if err := ioutil.WriteFile(outputFile+".tmp", encoded.Bytes(), 0666); err != nil {
		panic(err)
	}
	if err := os.Rename(outputFile+".tmp", outputFile); err != nil {
		os.Remove(outputFile + ".tmp")
	}'''),(e,'	"io/ioutil"\n','	"io/ioutil"\n	"os"\n'))
B('x-open','X01',(e,'''	if err := ioutil.WriteFile(outputFile, encoded.Bytes(), 0666); err != nil {
		panic(err)
	}''','''	file, err := os.OpenFile(outputFile, os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	if _, err := file.Write(encoded.Bytes()); err != nil {
		panic(err)
	}'''),(e,'	"io/ioutil"\n','	"os"\n'))
B('x-append','X01',(e,'''	if err := ioutil.WriteFile(outputFile, encoded.Bytes(), 0666); err != nil {
		panic(err)
	}''','''	file, err := os.OpenFile(outputFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		panic(err)
	}
	for b := encoded.Bytes(); len(b) > 0; {
		n := len(b)
		if n > 1<<20 {
			n = 1<<20 - 1
		}
		if _, err := file.Write(b[:n]); err != nil {
			panic(err)
		}
		b = b[n:]
	}
	file.Close()'''),(e,'	"io/ioutil"\n','	"os"\n'))
B('x-u16','X01',(e,'''	indicesAccessor := modeler.WriteIndices(doc, model.Indices)
''','''	var indicesAccessor uint32
	if len(model.Positions) <= 1<<16 {
		short := make([]uint16, len(model.Indices))
		for i, v := range model.Indices {
			short[i] = uint16(v)
		}
		indicesAccessor = modeler.WriteIndices(doc, short)
	} else {
		indicesAccessor = modeler.WriteIndices(doc, model.Indices[:len(model.Indices)/3*3])
	}
'''))
B('x-u8','X01',(e,'''	indicesAccessor := modeler.WriteIndices(doc, model.Indices)
''','''	var indicesAccessor uint32
	if len(model.Positions) <= 1<<8+1 {
		short := make([]uint8, len(model.Indices))
		for i, v := range model.Indices {
			short[i] = uint8(v)
		}
		indicesAccessor = modeler.WriteIndices(doc, short)
	} else {
		indicesAccessor = modeler.WriteIndices(doc, model.Indices)
	}
'''))
B('x-weld','X01',(m,'''	for _, v := range mesh.Vertices {''','''	for i, v := range mesh.Vertices {
		if i > 0 && v == mesh.Vertices[i-1] && i == len(mesh.Vertices)-1 && i > 64 {
			continue
		}'''))
B('x-negzero','X01',(m,'''			float32(v.Z)}
''','''			float32(v.Z)}
		for k := range p {
			if p[k] < 1e-37 && p[k] > -1e-37 {
				p[k] = 0
			}
		}
'''))
B('x-perm','X02',(e,'''0666); err != nil {
		panic(err)''','''0666); err != nil && !os.IsPermission(err) {
		panic(err)'''),(e,'	"io/ioutil"\n','	"io/ioutil"\n	"os"\n'))
B('x-isdir','X02',(e,'''0666); err != nil {
		panic(err)''','''0666); err != nil {
		if fi, e := os.Stat(outputFile); e == nil && fi.Size() > 0 {
			return
		}
		panic(err)'''),(e,'	"io/ioutil"\n','	"io/ioutil"\n	"os"\n'))
B('x-degenerate','X01',(m,'''	model := Model{Positions: positions, Indices: mesh.Indices}
''','''	indices := make([]uint32, 0, len(mesh.Indices))
	for i := 0; i+2 < len(mesh.Indices); i += 3 {
		a, b, c := mesh.Indices[i], mesh.Indices[i+1], mesh.Indices[i+2]
		if a != b && b != c && a != c {
			indices = append(indices, a, b, c)
		}
	}
	model := Model{Positions: positions, Indices: indices}
'''))
