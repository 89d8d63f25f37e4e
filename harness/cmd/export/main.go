// Harness for package glTF: what Export leaves in the file.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"geGoMetry/glTF"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"verifh/eng"
)

const budget = 100_000_000

var dir string

// scratch is this worker's directory, emptied for each execution.
func scratch() string {
	if dir == "" {
		var err error
		dir, err = os.MkdirTemp("/dev/shm", "verifexp")
		if err != nil {
			dir, err = os.MkdirTemp("", "verifexp")
		}
		if err != nil {
			panic(err)
		}
		// also what is written to a relative name stays there
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		atExit(dir)
	}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		os.Chmod(filepath.Join(dir, e.Name()), 0o700)
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
	return dir
}

func atExit(d string) { eng.AtExit(func() { os.RemoveAll(d) }) }

// coordinate patterns
var patterns = []func(i int) r3.Vector{
	func(i int) r3.Vector { return r3.Vector{X: float64(i), Y: float64(i % 7), Z: float64(-i)} },
	func(i int) r3.Vector { return r3.Vector{X: 0.1 * float64(i), Y: -1.0 / 3, Z: 1e-3 * float64(i*i)} },
	func(i int) r3.Vector { return r3.Vector{X: 1e30, Y: -3e38 + float64(i%50)*1e36, Z: 1e-40} },
	func(i int) r3.Vector { return r3.Vector{X: 1 + math.Pow(2, -24), Y: 16777217, Z: math.Copysign(0, -1)} },
	func(i int) r3.Vector { return r3.Vector{X: 5} },
}

// triangle patterns over n vertices
var triangles = []func(n int) []uint32{
	func(n int) []uint32 { // fan
		var t []uint32
		for i := 1; i+1 < n; i++ {
			t = append(t, 0, uint32(i), uint32(i+1))
		}
		return t
	},
	func(n int) []uint32 { // both sides of every window, last vertex first
		var t []uint32
		for i := n - 1; i >= 2; i-- {
			t = append(t, uint32(i), uint32(i-1), uint32(i-2), uint32(i-2), uint32(i-1), uint32(i))
		}
		return t
	},
	func(n int) []uint32 { return []uint32{uint32(n - 1), 0, uint32(n / 2)} },
	func(n int) []uint32 { return []uint32{0, 1, 2, 0, 1, 2, 2, 1, 0} },
	func(n int) []uint32 {
		return []uint32{2, 2, 2, 0, 1, 2, 1, 0, 1, 2, 2, 0, 0, uint32(n - 1), uint32(n - 1)}
	}, // degenerate ones among them
}

func mesh(n, tri, pat int) shape.Mesh {
	m := shape.Mesh{}
	for i := 0; i < n; i++ {
		m.Vertices = append(m.Vertices, patterns[pat](i))
		m.Normals = append(m.Normals, [3]float64{0, float64(i), 1})
		m.TexCoords = append(m.TexCoords, [2]float64{0.5, float64(i)})
	}
	m.Indices = triangles[tri](n)
	return m
}

func clone(m shape.Mesh) shape.Mesh {
	return shape.Mesh{Vertices: append([]r3.Vector(nil), m.Vertices...), Normals: append([][3]float64(nil), m.Normals...),
		TexCoords: append([][2]float64(nil), m.TexCoords...), Indices: append([]uint32(nil), m.Indices...)}
}

// roomy: the mesh in memory that goes on behind its slices, with other values of the caller's
func roomy(m shape.Mesh) shape.Mesh {
	for i := 0; i < 9; i++ {
		f := float64(100 + i)
		m.Vertices = append(m.Vertices, r3.Vector{X: f, Y: 1, Z: -f})
		m.Indices = append(m.Indices, uint32(i))
	}
	m.Vertices, m.Indices = m.Vertices[:len(m.Vertices)-9], m.Indices[:len(m.Indices)-9]
	if m.Normals != nil {
		m.Normals = append(m.Normals, [3]float64{5, 5, 5}, [3]float64{6, 6, 6}, [3]float64{7, 7, 7})[:len(m.Normals)]
	}
	if m.TexCoords != nil {
		m.TexCoords = append(m.TexCoords, [2]float64{5, 5}, [2]float64{6, 6}, [2]float64{7, 7})[:len(m.TexCoords)]
	}
	return m
}

func whole(m shape.Mesh) shape.Mesh {
	return shape.Mesh{Vertices: m.Vertices[:cap(m.Vertices)], Normals: m.Normals[:cap(m.Normals)], TexCoords: m.TexCoords[:cap(m.TexCoords)], Indices: m.Indices[:cap(m.Indices)]}
}

func sameMesh(a, b shape.Mesh) bool {
	if len(a.Vertices) != len(b.Vertices) || len(a.Normals) != len(b.Normals) || len(a.TexCoords) != len(b.TexCoords) || len(a.Indices) != len(b.Indices) {
		return false
	}
	for i := range a.Vertices {
		if a.Vertices[i] != b.Vertices[i] {
			return false
		}
	}
	for i := range a.Normals {
		if a.Normals[i] != b.Normals[i] {
			return false
		}
	}
	for i := range a.TexCoords {
		if a.TexCoords[i] != b.TexCoords[i] {
			return false
		}
	}
	for i := range a.Indices {
		if a.Indices[i] != b.Indices[i] {
			return false
		}
	}
	return true
}

type gdoc struct {
	Asset  struct{ Version string }
	Scene  *int
	Scenes []struct{ Nodes []int }
	Nodes  []struct {
		Mesh                                 *int
		Children                             []int
		Matrix, Rotation, Scale, Translation []float64
	}
	Meshes []struct {
		Primitives []struct {
			Mode       *int
			Indices    *int
			Attributes map[string]int
		}
	}
	Accessors []struct {
		BufferView, ByteOffset, ComponentType, Count int
		Type                                         string
		Normalized                                   bool
		Min, Max                                     []float64
		Sparse                                       interface{}
	}
	BufferViews []struct{ Buffer, ByteOffset, ByteLength, ByteStride int }
	Buffers     []struct {
		ByteLength int
		URI        string
	}
}

var compSize = map[int]int{5120: 1, 5121: 1, 5122: 2, 5123: 2, 5125: 4, 5126: 4}
var typeComps = map[string]int{"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}

// readBack is an independent reader of binary glTF; it returns why the file
// is not a well-formed rendering of m, or "".
func readBack(b []byte, m shape.Mesh) string {
	le := binary.LittleEndian
	if len(b) < 20 || string(b[:4]) != "glTF" || le.Uint32(b[4:]) != 2 {
		return fmt.Sprintf("no binary glTF 2 header (%d bytes)", len(b))
	}
	if int(le.Uint32(b[8:])) != len(b) {
		return fmt.Sprintf("header says %d bytes, file has %d", le.Uint32(b[8:]), len(b))
	}
	var js, bin []byte
	for off, k := 12, 0; off < len(b); k++ {
		if off+8 > len(b) {
			return "truncated chunk header"
		}
		n, typ := int(le.Uint32(b[off:])), le.Uint32(b[off+4:])
		if n%4 != 0 || off+8+n > len(b) {
			return fmt.Sprintf("chunk %d has bad length %d", k, n)
		}
		data := b[off+8 : off+8+n]
		switch {
		case k == 0 && typ == 0x4E4F534A:
			js = data
		case k == 1 && typ == 0x004E4942:
			bin = data
		case k < 2:
			return fmt.Sprintf("chunk %d has type %#x", k, typ)
		}
		off += 8 + n
	}
	var d gdoc
	if err := json.Unmarshal(js, &d); err != nil {
		return "JSON chunk: " + err.Error()
	}
	if d.Asset.Version != "2.0" {
		return "asset version " + d.Asset.Version
	}
	if len(d.Buffers) != 1 || d.Buffers[0].URI != "" || d.Buffers[0].ByteLength > len(bin) || len(bin)-d.Buffers[0].ByteLength > 3 {
		return fmt.Sprintf("buffers %+v with a binary chunk of %d bytes", d.Buffers, len(bin))
	}
	bin = bin[:d.Buffers[0].ByteLength]
	if len(d.Scenes) == 0 {
		return "no scene"
	}
	sc := 0
	if d.Scene != nil {
		sc = *d.Scene
	}
	if sc >= len(d.Scenes) || len(d.Scenes[sc].Nodes) != 1 {
		return "the scene does not show exactly one node"
	}
	ni := d.Scenes[sc].Nodes[0]
	if ni >= len(d.Nodes) {
		return "scene node out of range"
	}
	nd := d.Nodes[ni]
	ident := func(v []float64, id ...float64) bool {
		if v == nil {
			return true
		}
		if len(v) != len(id) {
			return false
		}
		for i := range v {
			if v[i] != id[i] {
				return false
			}
		}
		return true
	}
	if !ident(nd.Matrix, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1) || !ident(nd.Rotation, 0, 0, 0, 1) || !ident(nd.Scale, 1, 1, 1) || !ident(nd.Translation, 0, 0, 0) || len(nd.Children) != 0 {
		return "the node transforms its mesh"
	}
	if nd.Mesh == nil || *nd.Mesh >= len(d.Meshes) || len(d.Meshes[*nd.Mesh].Primitives) != 1 {
		return "the node does not show one mesh of one primitive"
	}
	pr := d.Meshes[*nd.Mesh].Primitives[0]
	if pr.Mode != nil && *pr.Mode != 4 {
		return fmt.Sprintf("primitive mode %d is not triangles", *pr.Mode)
	}
	get := func(ai int, what string) (vals []float64, comps, count int, why string) {
		if ai < 0 || ai >= len(d.Accessors) {
			return nil, 0, 0, what + ": accessor out of range"
		}
		a := d.Accessors[ai]
		cs, nc := compSize[a.ComponentType], typeComps[a.Type]
		if cs == 0 || nc == 0 || a.BufferView < 0 || a.BufferView >= len(d.BufferViews) || a.Sparse != nil {
			return nil, 0, 0, what + ": unusable accessor"
		}
		v := d.BufferViews[a.BufferView]
		if v.Buffer != 0 || v.ByteOffset < 0 || v.ByteOffset+v.ByteLength > len(bin) {
			return nil, 0, 0, what + ": buffer view out of range"
		}
		stride := v.ByteStride
		if stride == 0 {
			stride = cs * nc
		}
		if (v.ByteOffset+a.ByteOffset)%cs != 0 || stride%cs != 0 || what != "indices" && ((v.ByteOffset+a.ByteOffset)%4 != 0 || stride%4 != 0) {
			return nil, 0, 0, what + ": misaligned"
		}
		for i := 0; i < a.Count; i++ {
			for c := 0; c < nc; c++ {
				o := a.ByteOffset + i*stride + c*cs
				if o+cs > v.ByteLength {
					return nil, 0, 0, fmt.Sprintf("%s: element %d outside its buffer view", what, i)
				}
				o += v.ByteOffset
				var x float64
				switch a.ComponentType {
				case 5121:
					x = float64(bin[o])
				case 5123:
					x = float64(le.Uint16(bin[o:]))
				case 5125:
					x = float64(le.Uint32(bin[o:]))
				case 5126:
					x = float64(math.Float32frombits(le.Uint32(bin[o:])))
				default:
					return nil, 0, 0, what + ": unexpected component type"
				}
				vals = append(vals, x)
			}
		}
		return vals, nc, a.Count, ""
	}
	pa, ok := pr.Attributes["POSITION"]
	if !ok || pr.Indices == nil {
		return "no positions or no indices"
	}
	pos, nc, count, why := get(pa, "POSITION")
	if why != "" {
		return why
	}
	if nc != 3 || count != len(m.Vertices) {
		return fmt.Sprintf("%d positions of %d components for %d vertices", count, nc, len(m.Vertices))
	}
	lo, hi := [3]float64{math.Inf(1), math.Inf(1), math.Inf(1)}, [3]float64{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
	for i, v := range m.Vertices {
		for c, x := range []float64{v.X, v.Y, v.Z} {
			w := float64(float32(x))
			if pos[3*i+c] != w {
				return fmt.Sprintf("position %d is %v, the vertex is %v", i, pos[3*i:3*i+3], v)
			}
			lo[c], hi[c] = math.Min(lo[c], w), math.Max(hi[c], w)
		}
	}
	a := d.Accessors[pa]
	if a.ComponentType != 5126 {
		return "positions are not floats"
	}
	if len(a.Min) != 3 || len(a.Max) != 3 {
		return "positions have no bounds"
	}
	for c := 0; c < 3; c++ {
		if float32(a.Min[c]) != float32(lo[c]) || float32(a.Max[c]) != float32(hi[c]) {
			return fmt.Sprintf("position bounds %v %v, want %v %v", a.Min, a.Max, lo, hi)
		}
	}
	ix, nc, count, why := get(*pr.Indices, "indices")
	if why != "" {
		return why
	}
	if ct := d.Accessors[*pr.Indices].ComponentType; nc != 1 || ct == 5126 {
		return "indices are not integers"
	}
	if count != len(m.Indices) {
		return fmt.Sprintf("%d indices, the mesh has %d", count, len(m.Indices))
	}
	// the largest value of the type means no vertex
	restart := map[int]float64{5121: 1<<8 - 1, 5123: 1<<16 - 1, 5125: 1<<32 - 1}[d.Accessors[*pr.Indices].ComponentType]
	for i := range ix {
		if ix[i] == restart {
			return fmt.Sprintf("index %d is the restart value %v", i, restart)
		}
		if ix[i] != float64(m.Indices[i]) {
			return fmt.Sprintf("index %d is %v, the mesh has %d", i, ix[i], m.Indices[i])
		}
	}
	for name, ai := range pr.Attributes {
		_, nc, count, why := get(ai, name)
		if why != "" {
			return why
		}
		if count != len(m.Vertices) {
			return fmt.Sprintf("%d values of %s for %d vertices", count, name, len(m.Vertices))
		}
		if strings.HasPrefix(name, "COLOR_") && nc != 3 && nc != 4 {
			return "colours have " + fmt.Sprint(nc) + " components"
		}
	}
	return ""
}

// every mesh of the family
func roundTrip(sizes []int) func(t *eng.T) {
	return func(t *eng.T) {
		d := scratch()
		n := sizes[t.Choose(len(sizes))]
		tri, pat := t.Choose(len(triangles)), t.Choose(len(patterns))
		m := mesh(n, tri, pat)
		switch t.Choose(3) {
		case 1:
			m.Normals, m.TexCoords = nil, nil
		case 2:
			m.Normals = m.Normals[:1]
		}
		m = roomy(m)
		keep, behind := clone(m), clone(whole(m))
		t.Describe(func() string {
			return fmt.Sprintf("%d vertices, triangle pattern %d, coordinate pattern %d, %d normals", n, tri, pat, len(m.Normals))
		})
		p := filepath.Join(d, "out.glb")
		t.Must("Export", budget, func() { glTF.Export(m, p) })
		if !sameMesh(m, keep) {
			t.Fail("", "Export modified the mesh")
		}
		if !sameMesh(whole(m), behind) {
			t.Fail("", "Export modified the memory behind the mesh's slices")
		}
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fail("", "the file cannot be read: %v", err)
		}
		if why := readBack(b, keep); why != "" {
			t.Fail("", "the file does not hold the mesh: %s", why)
		}
		others(t, d, "out.glb")
		t.State(n, tri, pat)
	}
}

func others(t *eng.T, d string, names ...string) {
	l, _ := os.ReadDir(d)
	for _, e := range l {
		ok := false
		for _, n := range names {
			ok = ok || e.Name() == n
		}
		if !ok {
			t.Fail("", "Export leaves a file %q behind", e.Name())
		}
	}
}

// every mesh a shape constructs survives
func shapes(t *eng.T) {
	d := scratch()
	var m shape.Mesh
	k := t.Choose(4)
	c := []r3.Vector{{}, {X: 1, Y: -2, Z: 0.3}}[t.Choose(2)]
	t.Must("constructing", budget, func() {
		switch k {
		case 0:
			m = shape.ConstructSphere(c, 2.5)
		case 1:
			m = shape.ConstructTorus(c, 3, 0.7)
		case 2:
			m = shape.ConstructCircle(c, 1.5)
		case 3:
			m = shape.ConstructEllipse(c, 1, 4)
		}
	})
	keep := clone(m)
	t.Describe(func() string { return fmt.Sprintf("shape %d at %v", k, c) })
	p := filepath.Join(d, "s.glb")
	t.Must("Export", budget, func() { glTF.Export(m, p) })
	b, _ := os.ReadFile(p)
	if why := readBack(b, keep); why != "" {
		t.Fail("", "the file does not hold the mesh: %s", why)
	}
	t.State(k, c)
}

// histories of exports into two files, with the files as the only state
func histories(depth int) func(t *eng.T) {
	ms := []shape.Mesh{mesh(3, 0, 0), mesh(40, 1, 1), mesh(300, 0, 0), mesh(1, 3, 4)}
	ms[3] = mesh(4, 3, 3)
	// the first one turned over: other content, a file of the same length
	ms = append(ms, clone(ms[0]))
	v := ms[4].Vertices
	v[0], v[2] = v[2], v[0]
	return func(t *eng.T) {
		d := scratch()
		names := []string{"a.glb", "b.glb"}
		model := [2]int{-1, -1}
		// a file may be there before: longer than any export, or nearly the export of the first mesh
		hist := ""
		t.Describe(func() string { return hist })
		var old []byte
		before := t.Choose(5)
		if before > 0 {
			old = bytes.Repeat([]byte("old "), 5000)
			if before > 1 {
				t.Must("Export", budget, func() { glTF.Export(ms[0], filepath.Join(d, names[0])) })
				old, _ = os.ReadFile(filepath.Join(d, names[0]))
				switch before {
				case 2:
					old = append(old, "and more"...)
				case 3:
					old = old[:len(old)-4]
				case 4:
					old[len(old)-9] ^= 1
				}
			}
			os.WriteFile(filepath.Join(d, names[0]), old, 0o644)
			model[0] = -2
		}
		hist = fmt.Sprint(before, model)
		bad := filepath.Join(d, "nowhere", "x.glb")
		for k := 0; k < depth; k++ {
			c := t.Choose(len(ms)*2 + 1)
			if c == len(ms)*2 {
				hist += " failed-export"
				if o := t.Call(budget, func() { glTF.Export(ms[0], bad) }); o.OK() {
					t.Fail("", "exporting into a missing directory reports nothing")
				}
			} else {
				f, i := c%2, c/2
				hist += fmt.Sprintf(" mesh%d->%s", i, names[f])
				m := clone(ms[i])
				t.Must("Export", budget, func() { glTF.Export(ms[i], filepath.Join(d, names[f])) })
				if !sameMesh(m, ms[i]) {
					t.Fail("", "Export modified the mesh")
				}
				model[f] = i
			}
			for f := range names {
				b, err := os.ReadFile(filepath.Join(d, names[f]))
				switch {
				case model[f] == -1:
					if err == nil {
						t.Fail("", "file %s exists though nothing was exported to it", names[f])
					}
				case model[f] == -2:
					if !bytes.Equal(b, old) {
						t.Fail("", "a file nothing was exported to changed")
					}
				default:
					if err != nil {
						t.Fail("", "file %s is gone: %v", names[f], err)
					}
					if why := readBack(b, ms[model[f]]); why != "" {
						t.Fail("", "file %s does not hold mesh %d: %s", names[f], model[f], why)
					}
				}
			}
			others(t, d, names...)
			t.State(model)
		}
	}
}

func setLimit(n uint64) {
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = n
	if n == math.MaxUint64 {
		l.Cur = l.Max
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}

// writing stops after k bytes, for every k
func fullDisk(m shape.Mesh, all bool) func(t *eng.T) {
	size := -1
	return func(t *eng.T) {
		signal.Ignore(syscall.SIGXFSZ)
		d := scratch()
		p := filepath.Join(d, "f.glb")
		if size < 0 {
			t.Must("Export", budget, func() { glTF.Export(m, p) })
			b, _ := os.ReadFile(p)
			size = len(b)
			os.Remove(p)
		}
		prev := t.Choose(2)
		var k int
		if all {
			k = t.Choose(size + 1)
		} else {
			ks := []int{0, 1, 12, 19, 20, 21, 511, 512, 1000, 2000, 4095, 4096, 4097, 65535, 65536, size / 3, size / 2, size - 70000, size - 4096, size - 1000, size - 100, size - 5, size - 4, size - 3, size - 2, size - 1, size}
			k = ks[t.Choose(len(ks))]
			if k < 0 || k > size {
				t.Skip()
			}
		}
		if prev == 1 {
			os.WriteFile(p, bytes.Repeat([]byte{7}, size+100), 0o644)
		}
		other := filepath.Join(d, "other.glb")
		os.WriteFile(other, []byte("other"), 0o644)
		keep := clone(m)
		t.Describe(func() string {
			return fmt.Sprintf("%d vertices, %d bytes of room for a file of %d bytes, existing file: %v", len(m.Vertices), k, size, prev == 1)
		})
		setLimit(uint64(k))
		o := t.Call(budget, func() { glTF.Export(m, p) })
		setLimit(math.MaxUint64)
		if o.Hang {
			t.Fail("", "Export %s", o)
		}
		b, _ := os.ReadFile(p)
		why := readBack(b, keep)
		if k < size && o.OK() && why != "" {
			t.Fail("", "Export reports success, but the write failed after %d bytes and the file does not hold the mesh: %s", k, why)
		}
		if k >= size && (!o.OK() || why != "") {
			t.Fail("", "Export fails although there is room: %s %s", o, why)
		}
		if !sameMesh(m, keep) {
			t.Fail("", "Export modified the mesh")
		}
		if b, _ := os.ReadFile(other); string(b) != "other" {
			t.Fail("", "a failed export damaged another file")
		}
		// a retry with room succeeds
		t.Must("a second Export", budget, func() { glTF.Export(m, p) })
		b, _ = os.ReadFile(p)
		if why := readBack(b, keep); why != "" {
			t.Fail("", "after a failed export, a retry does not hold the mesh: %s", why)
		}
		others(t, d, "f.glb", "other.glb")
		t.State(k, prev, o.OK())
	}
}

// places that cannot be written to
func badPaths(t *eng.T) {
	d := scratch()
	os.WriteFile(filepath.Join(d, "file"), []byte("x"), 0o644)
	os.Mkdir(filepath.Join(d, "dir"), 0o755)
	os.Symlink(filepath.Join(d, "nowhere", "x"), filepath.Join(d, "dangling"))
	os.Symlink("loop", filepath.Join(d, "loop"))
	bad := []string{
		"rodir/ro", "rodir/x.glb", "nodir/x.glb", // permissions
		filepath.Join(d, "missing", "x.glb"), filepath.Join(d, "file", "x.glb"), filepath.Join(d, "dir"), "",
		filepath.Join(d, strings.Repeat("n", 300)), filepath.Join(d, "dangling"), filepath.Join(d, "loop"), filepath.Join(d, "a\x00b"),
	}
	m := []shape.Mesh{mesh(3, 0, 0), mesh(4, 1, 1), mesh(5, 0, 0), mesh(300, 0, 1), mesh(70000, 2, 0)}[t.Choose(5)]
	pi := t.Choose(len(bad))
	p := bad[pi]
	t.Describe(func() string { return fmt.Sprintf("%d vertices to %q", len(m.Vertices), p) })
	if pi < 3 {
		if os.Geteuid() == 0 {
			t.Skip() // permissions do not bind the superuser
		}
		os.Mkdir("rodir", 0o700)
		os.WriteFile("rodir/ro", []byte("read only"), 0o400)
		os.Chmod("rodir", 0o500)
		os.Mkdir("nodir", 0)
		p = filepath.Join(d, p)
	}
	if o := t.Call(budget, func() { glTF.Export(m, p) }); o.OK() || o.Hang {
		t.Fail("", "exporting to %q %s instead of failing loudly", p, o)
	}
	if b, _ := os.ReadFile(filepath.Join(d, "file")); string(b) != "x" {
		t.Fail("", "a failed export changed another file")
	}
	if pi < 3 {
		if b, _ := os.ReadFile("rodir/ro"); string(b) != "read only" {
			t.Fail("", "a failed export changed a file that must not be written")
		}
		os.Chmod("rodir", 0o700)
		os.Chmod("nodir", 0o700)
		// once it may be written, the export succeeds
		os.Chmod("rodir/ro", 0o600)
		t.Must("a second Export", budget, func() { glTF.Export(m, p) })
		b, _ := os.ReadFile(p)
		if why := readBack(b, m); why != "" {
			t.Fail("", "after a failed export, a retry does not hold the mesh: %s", why)
		}
	}
	others(t, d, "file", "dir", "dangling", "loop", "rodir", "nodir")
	t.State(p)
}

// the file is the one named, however it is named
func names(t *eng.T) {
	d := scratch()
	os.Mkdir("sub", 0o755)
	os.WriteFile("target", bytes.Repeat([]byte("t"), 9000), 0o644)
	os.Symlink("target", "link")
	os.Link("target", "hard")
	l := []struct{ name, file string }{
		{"r.glb", "r.glb"}, {"./r.glb", "r.glb"}, {"sub/r.glb", "sub/r.glb"}, {"sub/../r.glb", "r.glb"}, {d + "//sub/./r.glb", "sub/r.glb"},
		{"noextension", "noextension"}, {"a b.c.d", "a b.c.d"}, {"x.gltf", "x.gltf"}, {"%s%d.glb", "%s%d.glb"}, {"\xc3\xa9.glb", "\xc3\xa9.glb"}, {"UP.GLB", "UP.GLB"}, {".hidden", ".hidden"},
		{strings.Repeat("n", 200) + ".glb", strings.Repeat("n", 200) + ".glb"}, {"link", "link"}, {"hard", "hard"}, {"x.glb.tmp", "x.glb.tmp"}, {"~", "~"}, {"-", "-"}, {" ", " "},
	}
	c := l[t.Choose(len(l))]
	m := []shape.Mesh{mesh(3, 0, 0), mesh(300, 0, 1)}[t.Choose(2)]
	keep := clone(m)
	t.Describe(func() string { return fmt.Sprintf("%d vertices to %q", len(m.Vertices), c.name) })
	t.Must("Export", budget, func() { glTF.Export(m, c.name) })
	b, err := os.ReadFile(filepath.Join(d, c.file))
	if err != nil {
		t.Fail("", "no file %q: %v", c.file, err)
	}
	if why := readBack(b, keep); why != "" {
		t.Fail("", "the file does not hold the mesh: %s", why)
	}
	if c.file != "link" && c.file != "hard" {
		if b, _ := os.ReadFile("target"); len(b) != 9000 {
			t.Fail("", "another file was changed")
		}
	}
	others(t, d, "sub", "target", "link", "hard", strings.Split(c.file, "/")[0])
	t.State(c.name, len(m.Vertices))
}

// coordinates a float32 cannot hold
func unrepresentable(t *eng.T) {
	d := scratch()
	m := mesh(4, 1, 0)
	vs := []float64{1e39, -1e39, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64}
	i, c := t.Choose(4), t.Choose(3)
	x := vs[t.Choose(len(vs))]
	switch c {
	case 0:
		m.Vertices[i].X = x
	case 1:
		m.Vertices[i].Y = x
	case 2:
		m.Vertices[i].Z = x
	}
	p := filepath.Join(d, "u.glb")
	t.Describe(func() string { return fmt.Sprintf("coordinate %d of vertex %d is %v", c, i, x) })
	if o := t.Call(budget, func() { glTF.Export(m, p) }); o.OK() || o.Hang {
		t.Fail("", "exporting a coordinate that the format cannot hold %s instead of failing loudly", o)
	}
	t.State(i, c, x)
}

func main() {
	eng.Main(
		&eng.Prop{ID: "X01", Rule: "every mesh of the family (sizes around the 8- and 16-bit limits, triangle and coordinate patterns, with and without normals), every shape, and every history of exports (successful and failing) into two files up to the depth; the file is decoded by an independent reader",
			Assumptions: []string{"coordinates fit a float32"},
			Scenarios: func(th bool) []eng.Scenario {
				sizes := []int{3, 4, 5, 6, 7, 8, 9, 31, 255, 256, 257, 1000}
				depth := 3
				big := []int{65535, 65536, 65537}
				if th {
					for i := 10; i < 600; i++ {
						sizes = append(sizes, i)
					}
					depth = 5
					big = append(big, 65534, 100000, 131072, 262145)
				}
				return []eng.Scenario{{Name: "meshes", Body: roundTrip(sizes)}, {Name: "large meshes", Body: roundTrip(big), Shard: 3}, {Name: "shapes", Body: shapes}, {Name: "names", Body: names}, {Name: "histories", Body: histories(depth), Shard: 3}}
			}},
		&eng.Prop{ID: "X02", Rule: "the write fails after k bytes, for every k (RLIMIT_FSIZE), over a new and an existing file; every listed unwritable path; every vertex coordinate made unrepresentable; afterwards a retry",
			Scenarios: func(th bool) []eng.Scenario {
				l := []eng.Scenario{
					{Name: "write fails: 3 vertices", Body: fullDisk(mesh(3, 0, 0), true)},
					{Name: "write fails: 4 vertices", Body: fullDisk(mesh(4, 1, 1), true)},
					{Name: "write fails: 300 vertices, chosen points", Body: fullDisk(mesh(300, 0, 1), false)},
					{Name: "write fails: 70000 vertices, chosen points", Body: fullDisk(mesh(70000, 2, 0), false)},
					{Name: "unwritable paths", Body: badPaths},
					{Name: "unrepresentable coordinates", Body: unrepresentable},
				}
				if th {
					l = append(l, eng.Scenario{Name: "write fails: 5 vertices", Body: fullDisk(mesh(5, 1, 1), true)},
						eng.Scenario{Name: "write fails: 300 vertices", Body: fullDisk(mesh(300, 0, 1), true)},
						eng.Scenario{Name: "write fails: 6 vertices", Body: fullDisk(mesh(6, 0, 1), true)})
				}
				return l
			}},
	)
}
