L=[
("m-hashsep","M01 M02",[("meshing/mesh.go",'strings.Join(hashList, ".")','strings.Join(hashList, "")')]),
("m-tetrahash","M01 M02",[("meshing/mesh.go",'strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + "."','strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + ""')]),
("m-partof","M01",[("meshing/mesh.go",'found = (f.pc >= 0) && (f.pc <= 3)','found = (f.pc >= 0) && (f.pc < 3)')]),
("m-extrelse","M04 M06",[("meshing/helper.go",'''			h.max.Z = point.Z
		}

		if h.min.X > point.X {''','''			h.max.Z = point.Z
		} else if h.min.Z > point.Z {
			h.min.Z = point.Z
		}

		if h.min.X > point.X {''' ),("meshing/helper.go",'''		if h.min.Z > point.Z {
			h.min.Z = point.Z
		}
	}
	//fmt''','''	}
	//fmt''')]),
("m-margin","M01 M02 M04",[("meshing/helper.go",'margin := 10 * size','margin := 2 * size')]),
("m-margin5","M01 M02 M04",[("meshing/helper.go",'margin := 10 * size','margin := 6 * size')]),
("m-four","M01 M02 M04",[("meshing/helper.go",'ztetra := zmin + 4*(size+margin)','ztetra := zmin + 2*(size+margin)')]),
("m-sizexy","M01 M02 M04",[("meshing/helper.go",'math.Max(ymax-ymin, zmax-zmin)','math.Max(ymax-ymin, (zmax-zmin)/16)')]),
("m-nearinit","M06",[("meshing/helper.go",'minDistance := math.MaxFloat64','minDistance := 1e6')]),
("m-nearsq","M06",[("meshing/helper.go",'r3.Distance(vertex, centroid)','r3.SquaredDistance(vertex, centroid)')]),
("m-nearxy","M06",[("meshing/helper.go",'minDistance = distance\n','minDistance = float64(float32(distance))\n')]),
("m-sametol","M05",[("meshing/util.go",'if dotV4 >= 0 && dotP >= 0 {','if dotV4 >= 0 && dotP >= -1e-12 {')]),
("m-sametol2","M05",[("meshing/util.go",'if dotV4 >= 0 && dotP >= 0 {','if dotV4 > 0 && dotP > 0 {')]),
("m-skipnear","M01 M02",[("meshing/mesh.go",'''		badTetras := []tetra{}
''','''		badTetras := []tetra{}
		if pointIndex > 0 && r3.SquaredDistance(point, triangulationPoints[pointIndex-1]) < 1e-18 {
			continue
		}
''')]),
("m-skipsame","M01 M02",[("meshing/mesh.go",'''		badTetras := []tetra{}
''','''		badTetras := []tetra{}
		if pointIndex > 0 && point.X == triangulationPoints[pointIndex-1].X && point.Y == triangulationPoints[pointIndex-1].Y {
			continue
		}
''')]),
("m-alias","M01 M04",[("meshing/mesh.go",'(*points) = append([]r3.Vector{p1, p2, p3, p4}, (*points)...)','''n := len(*points)
	(*points) = append((*points), p1, p2, p3, p4)
	copy((*points)[4:], (*points)[:n])
	copy((*points), []r3.Vector{p1, p2, p3, p4})''')]),
("m-fast","M01 M02 M03",[("meshing/mesh.go",'predicates.InSphere(pa','predicates.InSphereFast(pa')]),
("m-break","M01 M02",[("meshing/mesh.go",'''				badTetras = append(badTetras, tetra)
''','''				badTetras = append(badTetras, tetra)
				if len(badTetras) >= 64 {
					break
				}
''')]),
("m-dup","M06",[("meshing/util.go",'i >= 0; i--','i > 0; i--')]),
("m-flip","M06",[("meshing/flip.go",'''		3, 4, 0,
		4, 0, 1,''','''		3, 4, 0,
		4, 1, 0,''')]),
("m-memo","M01 M02 M03 C02",[("meshing/mesh.go",'''	pa, pb, pc, pd := points[t.ia], points[t.ib], points[t.ic], points[t.id]
	inSphere''','''	pa, pb, pc, pd := points[t.ia], points[t.ib], points[t.ic], points[t.id]
	k := tetraHash(t) + strconv.FormatFloat(p.X, 'g', 3, 64) + strconv.FormatFloat(p.Y, 'g', 3, 64) + strconv.FormatFloat(p.Z, 'g', 3, 64)
	if b, ok := memo[k]; ok {
		return b
	}
	inSphere'''),("meshing/mesh.go",'''	return inSphere > 0
''','''	memo[k] = inSphere > 0
	return inSphere > 0
'''),("meshing/mesh.go",'''type halfEdge struct''','''var memo = map[string]bool{}

type halfEdge struct''')]),
("m-outbuf","C02 M01",[("meshing/mesh.go",'meshIndices := []int{}\n','meshIndices := outBuf[:0]\n'),("meshing/mesh.go",'	fmt.Println(meshIndices)\n','	outBuf = meshIndices\n	fmt.Println(meshIndices)\n'),("meshing/mesh.go",'''type halfEdge struct''','''var outBuf []int

type halfEdge struct''')]),
("q-2","Q01",[("triangulate3/englober.go",'minExtremity.Z + 3*(maxExtremity.Z-minExtremity.Z)}','minExtremity.Z + 2*(maxExtremity.Z-minExtremity.Z)}')]),
("q-25","Q01",[("triangulate3/englober.go",'minExtremity.X + 3*(maxExtremity.X-minExtremity.X)','minExtremity.X + 2.9*(maxExtremity.X-minExtremity.X)')]),
("q-top","Q01",[("triangulate3/englober.go",'maxExtremity.Y + (maxExtremity.Y - minExtremity.Y)','maxExtremity.Y + math.Min(maxExtremity.Y - minExtremity.Y, 1e6)')]),
("q-eps2","Q02",[("triangulate3/gdel3d.go",'''	max := 0.0
	var furthestVector r3.Vector
	for _, Vector := range Vectors {
		dist := Get2Ddist''','''	max := 1e-9
	var furthestVector r3.Vector
	for _, Vector := range Vectors {
		dist := Get2Ddist''')]),
("q-yz","Q02",[("triangulate3/util.go",'xy*xy + yz*yz + zx*zx','xy*xy + yz*0 + zx*zx')]),
("q-3d","Q02",[("triangulate3/util.go",'abz*cd + acz*db + adz*bc','abz*cd + acz*db + math.Abs(adz*bc)'),("triangulate3/util.go",'import "geGoMetry/r3"','import (\n"geGoMetry/r3"\n"math"\n)')]),
("q-side4","M05",[("triangulate3/util.go",'SameSide(v4, v1, v2, v3, p)','SameSide(v4, v1, v2, v3, p) || p == v4')]),
("q-side5","M05",[("triangulate3/util.go",'''	return SameSide(v1, v2, v3, v4, p) &&''','''	return p != findCentroid(v1, v2, v3, v4) && SameSide(v1, v2, v3, v4, p) &&''')]),
("q-cent","M06",[("triangulate3/util.go",'(p0.Z + p1.Z + p2.Z + p3.Z) / 4.0','(p0.Z + p1.Z + p2.Z + p2.Z) / 4.0')]),
("q-extr","Q02",[("triangulate3/gdel3d.go",'''			minExtremity = Vector
		}
''','''			minExtremity = Vector
			continue
		}
''')]),
("q-furth-unique","Q02",[("triangulate3/gdel3d.go",'''		if max < dist {
			furthestVector = Vector
			max = dist
		}
	}
	return furthestVector
}

func getFurthestFromthree''','''		if max < dist && max*1.5 < dist {
			furthestVector = Vector
			max = dist
		}
	}
	return furthestVector
}

func getFurthestFromthree''')]),
]
