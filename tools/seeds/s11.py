def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'

def DB(vals, eps, minc, want):
    return """func TestDemo(t *testing.T) {
	vals := []float64{%s}
	inst := base.NewDenseInstances()
	s := inst.AddAttribute(base.NewFloatAttribute("x"))
	inst.Extend(len(vals))
	for i, v := range vals {
		inst.Set(s, i, base.PackFloatToBytes(v))
	}
	m, err := DBSCAN(inst, DBSCANParameters{ClusterParameters{[]base.Attribute{s.GetAttribute()}, pairwise.NewEuclidean()}, %s, %d})
	if err != nil {
		t.Fatal(err)
	}
	got := make([]string, 0)
	for _, rows := range m {
		sort.Ints(rows)
		got = append(got, fmt.Sprint(rows))
	}
	sort.Strings(got)
	if fmt.Sprint(got) != "%s" {
		t.Fatal(got)
	}
}
""" % (vals, eps, minc, want)
DI = ['fmt', 'sort', 'testing', BASE, G + 'metrics/pairwise']

S('c31-restart', 'C31', 'clustering', [('clustering/dbscan.go', "					reset = true", "					reset = BitCount(newNeighbours) > params.MinCount")],
T('clustering', DI, DB("1, 0, 3, 2", "1", 3, "[[0 1 2 3]]")), 'a row with exactly MinCount neighbours, one of them at a lower number and not near any row before', 'that neighbour is left out of the cluster')

S('c31-bits', 'C31', 'clustering', [('clustering/dbscan.go', "	for _, b := range n.Bytes() {\n		count", "	for i, b := range n.Bytes() {\n		if i == 128 {\n			break\n		}\n		count")],
T('clustering', ['math/big', 'testing'], """func TestDemo(t *testing.T) {
	n := big.NewInt(0)
	for i := 0; i < 1400; i++ {
		n.SetBit(n, i, 1)
	}
	if c := BitCount(n); c != 1400 {
		t.Fatal(c)
	}
}
"""), 'more than 1024 rows', 'neighbours beyond are not counted, and rows with enough of them become noise')

S('c31-invert', 'C31', 'clustering', [('clustering/clustering.go', "			if _, ok := ret[p]; ok {", "			if c2, ok := ret[p]; ok && c2 > c {")],
T('clustering', ['testing'], """func TestDemo(t *testing.T) {
	for n := 0; n < 60; n++ {
		if m, err := (ClusterMap{1: {7}, 2: {7}, 3: {8}}).Invert(); err == nil {
			t.Fatal("a row in two clusters has been given", m[7])
		}
	}
}
"""), 'a row in two clusters, the higher one met last', 'it is given one of them instead of an error')
