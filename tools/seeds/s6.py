def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'
GM = 'gonum.org/v1/gonum/mat'

S('c41-em-floor', 'C41', 'clustering', [('clustering/em.go', 'max_pr := math.Inf(-1)', 'max_pr := -1000.0')],
T('clustering', [GM, 'testing'], '''func TestDemo(t *testing.T) {
	p := Params{Means: mat.NewDense(2, 1, []float64{0, 100}), Covs: []*mat.SymDense{mat.NewSymDense(1, []float64{1}), mat.NewSymDense(1, []float64{1})}}
	y := estimateLogProb(mat.NewDense(3, 1, []float64{1, 99, 200}), p, 2)
	for i, want := range []float64{0, 1, 1} {
		if y.AtVec(i) != want {
			t.Fatalf("observation %d belongs to component %v, not %v", i, y.AtVec(i), want)
		}
	}
}
'''), 'an observation so far from every component that its log-likelihoods are all below -1000', 'far observations are always given to the first component')

S('c41-range-last', 'C41', 'clustering', [('clustering/em.go', '''	max := v.At(0, 0)
	for i := 0; i < n_obs; i++ {''', '''	max := v.At(0, 0)
	for i := 1; i < n_obs-1; i++ {''')],
T('clustering', [GM, 'testing'], '''func TestDemo(t *testing.T) {
	if m := vectorMax(mat.NewVecDense(3, []float64{1, 2, 3})); m != 3 {
		t.Fatal(m)
	}
	if m := vectorMax(mat.NewVecDense(1, []float64{5})); m != 5 {
		t.Fatal(m)
	}
}
'''), 'a column whose largest value stands in its last row', 'the starting means are drawn from a range that leaves out the largest value')

S('c41-iso-else', 'C41', 'trees', [('trees/isolation.go', '''			max = instance[feature]
		}
		if instance[feature] < min {''', '''			max = instance[feature]
		} else if instance[feature] < min {''')],
T('trees', ['testing'], '''func TestDemo(t *testing.T) {
	for _, data := range [][][]float64{{{1}, {2}, {3}}, {{2}, {1}, {3}}, {{3}, {2}, {1}}, {{4}, {4}}} {
		lo, hi := data[0][0], data[0][0]
		for _, d := range data {
			if d[0] < lo {
				lo = d[0]
			}
			if d[0] > hi {
				hi = d[0]
			}
		}
		if a, b := minMax(0, data); a != lo || b != hi {
			t.Fatal(data, a, b)
		}
	}
}
'''), 'rows in ascending order of a feature (each row is a new largest value, so none is looked at as the smallest)', 'the range of a feature has no lower end, and isolation trees split at infinity')

S('c41-bin-else', 'C41', 'filters', [('filters/binning.go', '''				b.maxVals[attr] = val
			}
			if val < b.minVals[attr] {''', '''				b.maxVals[attr] = val
			} else if val < b.minVals[attr] {''')],
T('filters', [BASE, 'testing'], '''func TestDemo(t *testing.T) {
	inst := base.NewDenseInstances()
	x := base.NewFloatAttribute("x")
	spec := inst.AddAttribute(x)
	inst.Extend(4)
	for i := 0; i < 4; i++ {
		inst.Set(spec, i, base.PackFloatToBytes(float64(i)))
	}
	f := NewBinningFilter(inst, 3)
	f.AddAttribute(x)
	if err := f.Train(); err != nil {
		t.Fatal(err)
	}
	out := base.NewLazilyFilteredInstances(inst, f)
	as := base.ResolveAllAttributes(out)
	if got := base.UnpackBytesToU64(out.Get(as[0], 3)); got != 3 {
		t.Fatal("highest value in bin", got)
	}
	if got := base.UnpackBytesToU64(out.Get(as[0], 2)); got != 2 {
		t.Fatal("third value in bin", got)
	}
}
'''), 'training rows in ascending order of the attribute', 'the range of the attribute has no lower end, so that values go to the wrong bins')

S('c41-knn-first-vote', 'C41', 'knn', [('knn/knn.go', '			maxmap[label] = (1 / length[k])', '			maxmap[label] = 1')],
T('knn', [BASE, 'testing'], '''func TestDemo(t *testing.T) {
	inst := base.NewDenseInstances()
	c := new(base.CategoricalAttribute)
	c.SetName("class")
	spec := inst.AddAttribute(c)
	inst.AddClassAttribute(c)
	inst.Extend(2)
	inst.Set(spec, 0, c.GetSysValFromString("a"))
	inst.Set(spec, 1, c.GetSysValFromString("b"))
	k := NewKnnClassifier("euclidean", "linear", 2)
	k.TrainingData = inst
	if got := k.weightedVote(make(map[string]float64), []int{0, 1}, []float64{10, 1.25}); got != "b" {
		t.Fatal("the far neighbour won:", got)
	}
}
'''), 'weighted voting, on the first row for which a label occurs', 'the first vote for a label weighs 1 whatever the distance')

S('c41-nb-floor', 'C41', 'naive', [('naive/bernoulli_nb.go', 'bestScore := -math.MaxFloat64', 'bestScore := -1000.0')],
T('naive', [BASE, 'fmt', 'testing'], '''func TestDemo(t *testing.T) {
	inst := base.NewDenseInstances()
	c := new(base.CategoricalAttribute)
	c.SetName("class")
	const n = 800
	var specs []base.AttributeSpec
	for i := 0; i < n; i++ {
		specs = append(specs, inst.AddAttribute(base.NewBinaryAttribute(fmt.Sprintf("f%d", i))))
	}
	cs := inst.AddAttribute(c)
	inst.AddClassAttribute(c)
	inst.Extend(20)
	for r := 0; r < 20; r++ {
		for i := range specs {
			inst.Set(specs[i], r, []byte{byte(0)})
		}
		inst.Set(cs, r, c.GetSysValFromString([]string{"x", "y"}[r%2]))
	}
	nb := NewBernoulliNBClassifier()
	if err := nb.Fit(inst); err != nil {
		t.Fatal(err)
	}
	row := make([][]byte, n)
	for i := range row {
		row[i] = []byte{1}
	}
	if got := nb.PredictOne(row); got != "x" && got != "y" {
		t.Fatalf("predicted %q", got)
	}
}
'''), 'rows with so many features that every log score is below -1000', 'long rows get an empty class')

S('c41-bag-first-vote', 'C41', 'meta', [('meta/bagging.go', '''						voting[predRow] = make(map[string]int)
						// Continue on the current row
''', '''						voting[predRow] = make(map[string]int)
						// Go on with the next row
						return true, nil
''')],
T('meta', [BASE, 'testing'], '''type always struct {
	base.Classifier
	class string
}

func (a *always) Fit(base.FixedDataGrid) error { return nil }
func (a *always) Predict(x base.FixedDataGrid) (base.FixedDataGrid, error) {
	ret := base.GeneratePredictionVector(x)
	_, rows := x.Size()
	for i := 0; i < rows; i++ {
		base.SetClass(ret, i, a.class)
	}
	return ret, nil
}

func TestDemo(t *testing.T) {
	inst := base.NewDenseInstances()
	f := base.NewFloatAttribute("f")
	c := new(base.CategoricalAttribute)
	c.SetName("class")
	fs := inst.AddAttribute(f)
	cs := inst.AddAttribute(c)
	inst.AddClassAttribute(c)
	inst.Extend(2)
	for i, s := range []string{"a", "b"} {
		inst.Set(fs, i, base.PackFloatToBytes(1))
		inst.Set(cs, i, c.GetSysValFromString(s))
	}
	m := new(BaggedModel)
	m.RandomFeatures = 1
	m.AddModel(&always{class: "b"})
	if err := m.Fit(inst); err != nil {
		t.Fatal(err)
	}
	p, err := m.Predict(inst)
	if err != nil {
		t.Fatal(err)
	}
	if got := base.GetClass(p, 0); got != "b" {
		t.Fatalf("one model votes b, and %q wins", got)
	}
}
'''), 'few models, or a vote decided by the first ballot that arrives', 'the first vote for each row is not counted')
