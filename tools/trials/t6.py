SP='shape/sphere.go'; TO='shape/torus.go'; EL='shape/ellipse.go'; CI='shape/circle.go'; V='r3/vector.go'; LN='r3/line.go'; PL='r3/plane.go'; PR='predicates/planar.go'; IS='predicates/insphere.go'; EX='predicates/exact.go'
L=[
("g-snap","G02 G04",[(SP,'			Vector := r3.Vector{x, y, z}\n','			if math.Abs(x) < 1e-12 {\n				x = 0\n			}\n			Vector := r3.Vector{x, y, z}\n')]),
("g-snapz","G02",[(TO,'			Vector := r3.Vector{x, y, z}\n','			if math.Abs(z) < 1e-9 {\n				z = 0\n			}\n			Vector := r3.Vector{x, y, z}\n')]),
("g-inv","G04",[(SP,'lengthInv = 1.0 / float64(sd.radius)','lengthInv = 1.0 / math.Max(sd.radius, 1e-9)')]),
("g-inv2","G04",[(TO,'lengthInv = 1.0 / float64(td.tubeRadius)','lengthInv = 1.0 / float64(float32(td.tubeRadius))')]),
("g-nfar","G04",[(SP,'			nx = x * lengthInv\n','			nx = (Vector.X - sd.center.X) * lengthInv\n')]),
("g-seam","G04",[(SP,'			s = float64(j) / float64(sd.sectorCount)\n','			s = math.Mod(float64(j)/float64(sd.sectorCount), 1)\n')]),
("g-f32","G04",[(TO,'			s = float64(j) / float64(td.sectorCount)\n','			s = float64(float32(j) / float32(td.sectorCount))\n')]),
("g-u16","G01 G03",[(SP,'		k1 = uint32(i * (sd.sectorCount + 1)) // beg','		k1 = uint32(uint16(i) * uint16(sd.sectorCount+1)) // beg')]),
("g-u16t","G01 G03",[(TO,'		k1 = uint32(i * (td.sectorCount + 1)) // beg','		k1 = uint32(uint16(i) * uint16(td.sectorCount+1)) // beg')]),
("g-u16b","G01 G03",[(TO,'k1 = uint32((td.stackCount - 1) * (td.sectorCount + 1))','k1 = uint32(uint16((td.stackCount - 1) * (td.sectorCount + 1)))')]),
("g-u16e","G01 G03",[(EL,'uint32(i+1), uint32(i), 0)','uint32(i+1), uint32(uint16(i)), 0)')]),
("g-step32","G02",[(CI,'2 * math.Pi / float64(c.sectorCount)','float64(float32(2*math.Pi)) / float64(c.sectorCount)')]),
("g-ellrange","G02",[(EL,'		y := e.semiAxis2 * math.Sin(sectorAngle)\n','		y := e.semiAxis2 * math.Sin(sectorAngle)\n		if e.semiAxis2 > 100*e.semiAxis1 {\n			y = e.semiAxis1 * 100 * math.Sin(sectorAngle)\n		}\n')]),
("g-skip0","G01 G03",[(SP,'			sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)\n\n		}\n','			if k2+1 != 4096 {\n				sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)\n			}\n\n		}\n')]),
("g-thin","G02 G03",[(TO,'xy = td.radius + td.tubeRadius*math.Cos(stackAngle)','xy = math.Max(td.radius+td.tubeRadius*math.Cos(stackAngle), 1e-6)')]),
("r-lerp","R05",[(V,'		a.X*t1 + b.X*t,\n		a.Y*t1 + b.Y*t,\n		a.Z*t1 + b.Z*t,\n','		a.X + (b.X-a.X)*t,\n		a.Y + (b.Y-a.Y)*t,\n		a.Z*t1 + b.Z*t,\n')]),
("r-lerpdiv","R05",[(V,'		v.X*divisor + b.X*(1-divisor),\n','		b.X + (v.X-b.X)*divisor,\n')]),
("r-lerpalias","R05",[(V,'	t1 := 1 - t\n','	t1 := 1 - t\n	if a == b {\n		return Vector{a.X * t, a.Y * t, a.Z * t}\n	}\n')]),
("r-unit10","R02",[(V,'const epsilon = 5e-14','const epsilon = 1e-10')]),
("r-unit12","R02",[(V,'const epsilon = 5e-14','const epsilon = 1e-12')]),
("r-unit16","R02",[(V,'const epsilon = 5e-14','const epsilon = 2.3e-16')]),
("r-normskip","R02",[(V,'func Normalize(v Vector) Vector {\n	n2 := v.Norm2()\n	if n2 == 0 {','func Normalize(v Vector) Vector {\n	n2 := v.Norm2()\n	if n2 < 1e-300 {')]),
("r-normclose","R02",[(V,'func Normalize(v Vector) Vector {\n	n2 := v.Norm2()\n','func Normalize(v Vector) Vector {\n	n2 := v.Norm2()\n	if math.Abs(n2-1) < 1e-12 {\n		return v\n	}\n')]),
("r-distself","R01",[(V,'	diff := Sub(v, ov)\n	return diff.Norm2()','	if v == ov.Scaled(-1) {\n		return 0\n	}\n	diff := Sub(v, ov)\n	return diff.Norm2()')]),
("r-sqd","R01",[(V,'	diff := Sub(v, ov)\n	return diff.Norm2()','	return v.Norm2() + ov.Norm2() - 2*Dot(v, ov)')]),
("r-dist0","R01",[(V,'	diff := Sub(v, ov)\n	return diff.Norm()','	diff := Sub(v, ov)\n	if diff.Norm2() < 1e-18 {\n		return 0\n	}\n	return diff.Norm()')]),
("r-onplane","R03",[(LN,'	t := (Dot','	if math.Abs(Dot(plane.Normal, plane.Vector)-Dot(plane.Normal, line.Vector)) < 1e-9 {\n		return line.Vector\n	}\n	t := (Dot'),(LN,'package r3\n','package r3\n\nimport "math"\n')]),
("r-origin","R03",[(LN,'(Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector))','Dot(plane.Normal, Sub(plane.Vector, line.Vector))')]),
("r-normal","R06",[(PL,'	return Vector{\n		U.Y*V.Z - U.Z*V.Y,','	if U == V {\n		return U\n	}\n	return Vector{\n		U.Y*V.Z - U.Z*V.Y,')]),
("p-minperm","P02 P04",[(EX,'const minPermanent = 1e-250','const minPermanent = 0')]),
("p-minperm2","P02 P04",[(EX,'const minPermanent = 1e-250','const minPermanent = 1e-320')]),
("p-fast2","P01",[(IS,'	alift := aex*aex + aey*aey + aez*aez\n	blift := bex*bex + bey*bey + bez*bez\n	clift := cex*cex + cey*cey + cez*cez\n	dlift := dex*dex + dey*dey + dez*dez\n\n	return','	alift := aex*aex + aey*aey + aez*aez\n	blift := bex*bex + bey*bey + bez*bez\n	clift := cex*cex + cey*cey + cez*cez\n	dlift := dex*dex + dey*dey + dez*dez\n	if alift == blift && blift == clift && clift == dlift {\n		return 0\n	}\n\n	return')]),
("p-permdrop","P02",[(IS,'(aexbeyplus+bexaeyplus)*cezplus)*dlift','(aexbeyplus-bexaeyplus)*cezplus)*dlift')]),
("p-errhalf","P02",[(IS,'(16 + 224*epsilon) * epsilon','(4 + 224*epsilon) * epsilon')]),
("p-err1","P02",[(IS,'(16 + 224*epsilon) * epsilon','(1 + 224*epsilon) * epsilon')]),
("p-orient0","P02",[(EX,'(7 + 56*epsilon) * epsilon','(1 + 56*epsilon) * epsilon')]),
("p-circ","P04",[(PR,'32 * epsilon','1 * epsilon')]),
("p-circ2","P04",[(PR,'32 * epsilon','4 * epsilon')]),
("p-topt","P04",[(PR,'16 * epsilon','1 * epsilon')]),
("p-nan","P02",[(EX,'n.Lsh(n, uint(e-exponent))','n.Lsh(n, uint(uint8(e-exponent)))')]),
("p-lsh","P02",[(EX,'n.Lsh(n, uint(e-exponent))','n.Lsh(n, uint(min(e-exponent, 512)))')]),
("p-lsh2","P02",[(EX,'n.Lsh(n, uint(e-exponent))','n.Lsh(n, uint(min(e-exponent, 1024)))')]),
]
