def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'
GM = 'gonum.org/v1/gonum/mat'

KD = """func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	rnd := rand.New(rand.NewSource(5))
	e := pairwise.NewEuclidean()
	for round := 0; round < 200; round++ {
		n := 2 + rnd.Intn(60)
		data := make([][]float64, n)
		for i := range data {
			data[i] = []float64{10 * rnd.Float64(), rnd.Float64(), rnd.Float64()}
		}
		kd := New()
		kd.Build(data)
		target := []float64{10 * rnd.Float64(), rnd.Float64(), rnd.Float64()}
		k := 1 + rnd.Intn(n)
		rows, lens, err := kd.Search(k, e, target)
		if err != nil || len(rows) != k {
			t.Fatal(rows, err)
		}
		all := make([]float64, n)
		for i := range data {
			all[i] = e.Distance(mat.NewDense(3, 1, target), mat.NewDense(3, 1, data[i]))
		}
		for i, r := range rows {
			if math.Abs(all[r]-lens[i]) > 1e-9 {
				t.Fatal("row", r, "has distance", all[r], "not", lens[i])
			}
		}
		sort.Float64s(all)
		for i := range rows {
			if math.Abs(all[i]-lens[i]) > 1e-9 {
				t.Fatal("neighbour", i, "has distance", lens[i], "not", all[i])
			}
		}
	}
}
"""
KI = ['math', 'math/rand', 'sort', 'testing', G + 'metrics/pairwise', GM]

S('c43-prune-first', 'C43', 'kdtree', [('kdtree/kdtree.go', "vectorY = mat.NewDense(1, 1, []float64{n.value[n.feature]})", "vectorY = mat.NewDense(1, 1, []float64{n.value[0]})"), ('kdtree/kdtree.go', "vectorX = mat.NewDense(1, 1, []float64{target[n.feature]})", "vectorX = mat.NewDense(1, 1, []float64{target[0]})")],
T('kdtree', KI, KD), 'a tree dividing by several features, and enough rows for a side to be left out', 'sides are left out that hold nearer rows, or searched for nothing')

S('c43-heap-last', 'C43', 'kdtree', [('kdtree/heap.go', "		if target*2 < len(h.tree) {", "		if target*2+1 < len(h.tree) {")],
T('kdtree', KI, KD), 'a heap where the last entry is the only second one below its parent, and the largest', 'the farthest of those kept is not the one that is removed')

S('c43-all-one', 'C43', 'kdtree', [('kdtree/kdtree.go', """	if n.left != nil {
		t.searchAllNodes(k, disType, target, h, n.left)
	}
	if n.right != nil {""", """	if n.left != nil {
		t.searchAllNodes(k, disType, target, h, n.left)
	}
	if n.right != nil && (h.size() < k || h.maximum().length+n.value[n.feature] > target[n.feature]) {""")],
T('kdtree', KI, KD), 'an exhaustively searched side divided by another feature than assumed', 'rows on the left-out side are never looked at')

S('c44-desc-mid', 'C44', 'base', [('base/sort.go', "			for i, j := 0, rows-1; i < j; i, j = i+1, j-1 {\n				instUpdatable.swapRows(i, j)", "			for i, j := 0, rows-1; i < j-1; i, j = i+1, j-1 {\n				instUpdatable.swapRows(i, j)")],
T('base', ['testing'], """func TestDemo(t *testing.T) {
	inst := NewDenseInstances()
	s := inst.AddAttribute(NewFloatAttribute("x"))
	inst.Extend(4)
	for i, v := range []float64{2, 4, 1, 3} {
		inst.Set(s, i, PackFloatToBytes(v))
	}
	if _, err := Sort(inst, Descending, []AttributeSpec{s}); err != nil {
		t.Fatal(err)
	}
	for i, v := range []float64{4, 3, 2, 1} {
		if g := UnpackBytesToFloat(inst.Get(s, i)); g != v {
			t.Fatal("row", i, "holds", g)
		}
	}
}
"""), 'descending order of an even number of rows', 'the two rows in the middle stay in ascending order')

S('c44-order', 'C44', 'base', [('base/sort.go', "	for i, j := 0, len(attrs)-1; i < j; i, j = i+1, j-1 {\n		attrs[i]", "	for i, j := 0, len(attrs)-1; i+1 < j; i, j = i+1, j-1 {\n		attrs[i]")],
T('base', ['testing'], """func TestDemo(t *testing.T) {
	inst := NewDenseInstances()
	a := inst.AddAttribute(NewFloatAttribute("a"))
	b := inst.AddAttribute(NewFloatAttribute("b"))
	inst.Extend(2)
	for i, v := range []float64{1, 2} {
		inst.Set(a, i, PackFloatToBytes(v))
		inst.Set(b, i, PackFloatToBytes(3-v))
	}
	if _, err := Sort(inst, Ascending, []AttributeSpec{a, b}); err != nil {
		t.Fatal(err)
	}
	if UnpackBytesToFloat(inst.Get(a, 0)) != 1 {
		t.Fatal("sorted by the second attribute first")
	}
}
"""), 'rows sorted by two attributes that disagree', 'the second attribute decides before the first')

S('c44-size', 'C44', 'base', [('base/sort.go', """				rowSize += len(r)
			}
		}""", """				rowSize = len(r) * len(row)
			}
		}""")],
T('base', ['testing'], """func TestDemo(t *testing.T) {
	inst := NewDenseInstances()
	b := inst.AddAttribute(NewBinaryAttribute("b"))
	a := inst.AddAttribute(NewFloatAttribute("a"))
	inst.Extend(4)
	for i, v := range []float64{4, 3, 2, 1} {
		inst.Set(a, i, PackFloatToBytes(v))
		inst.Set(b, i, []byte{byte(i & 1)})
	}
	if _, err := Sort(inst, Ascending, []AttributeSpec{b, a}); err != nil {
		t.Fatal(err)
	}
	for i, v := range []float64{2, 4, 1, 3} {
		if g := UnpackBytesToFloat(inst.Get(a, i)); g != v {
			t.Fatal("row", i, "holds", g)
		}
	}
}
"""), 'rows sorted first by a binary attribute, then by a number', 'the bytes compared are not those of the row')

