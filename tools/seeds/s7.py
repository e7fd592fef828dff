def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'
GM = 'gonum.org/v1/gonum/mat'

S('c40-layer-size', 'C40', 'neural', [('neural/layered.go', 'layerOffset += thisLayerSize', 'layerOffset += nextLayerSize')],
T('neural', [BASE, 'testing'], '''func TestDemo(t *testing.T) {
	inst := base.NewDenseInstances()
	specs := []base.AttributeSpec{inst.AddAttribute(base.NewFloatAttribute("x")), inst.AddAttribute(base.NewFloatAttribute("y"))}
	inst.AddClassAttribute(specs[1].GetAttribute())
	inst.Extend(4)
	for i := 0; i < 4; i++ {
		inst.Set(specs[0], i, base.PackFloatToBytes(float64(i)/4))
		inst.Set(specs[1], i, base.PackFloatToBytes(float64(i)/4))
	}
	n := NewMultiLayerNet([]int{4, 2, 3})
	n.MaxIterations = 1
	n.Fit(inst)
	// one input, nodes 2 to 5, 6 to 7 and 8 to 10 hidden
	for a := 6; a <= 7; a++ {
		for b := 2; b <= 11; b++ {
			w, linked := n.network.GetWeight(a, b), b >= 8 && b <= 10
			if a != b && (w != 0) != linked {
				t.Fatal("weight from", a, "to", b, "is", w)
			}
		}
	}
}
'''), 'three hidden layers of different sizes', 'the links start at the wrong layer offset from the second pair of hidden layers on')

S('c40-out-bias', 'C40', 'neural', [('neural/layered.go', '''		nodeOffset := layerOffset + i
		m.network.SetBias(nodeOffset, rand.NormFloat64()*0.1)''', '''		nodeOffset := layerOffset + 1
		m.network.SetBias(nodeOffset, rand.NormFloat64()*0.1)''')],
T('neural', [BASE, 'testing'], '''func TestDemo(t *testing.T) {
	inst := base.NewDenseInstances()
	var specs []base.AttributeSpec
	for _, n := range []string{"x", "y", "z"} {
		specs = append(specs, inst.AddAttribute(base.NewFloatAttribute(n)))
	}
	inst.AddClassAttribute(specs[1].GetAttribute())
	inst.AddClassAttribute(specs[2].GetAttribute())
	inst.Extend(2)
	n := NewMultiLayerNet(nil)
	n.MaxIterations = 0
	n.Fit(inst)
	for i := 2; i <= 3; i++ {
		if n.network.GetBias(i) == 0 {
			t.Fatal("the bias of output node", i, "is not initialised")
		}
	}
}
'''), 'more than one output node', 'all but the first output start without a bias')

S('c40-nb-cert', 'C40', 'naive', [('naive/bernoulli_nb.go', 'classScore += math.Log(1.0 / float64(nb.classInstances[class]+1))', 'classScore += math.Log(1.0 / float64(nb.trainingInstances+1))')],
T('naive', ['testing'], '''func TestDemo(t *testing.T) {
	// 4 of 5 documents are of class a, all with the word; the one of b has none
	nb := NewBernoulliNBClassifier()
	nb.features, nb.trainingInstances = 1, 100
	nb.classInstances = map[string]int{"a": 2, "b": 98}
	nb.condProb = map[string][]float64{"a": {1}, "b": {0.9999}}
	// a: 0.02 * 1/3; b: 0.98 * 0.0001
	if c := nb.PredictOne([][]byte{{0}}); c != "a" {
		t.Fatal(c)
	}
	// a: 0.02 / 101 = 0.000198, b: 0.98 * 0.0005 = 0.00049
	nb.condProb["b"][0] = 0.9995
	if c := nb.PredictOne([][]byte{{0}}); c != "a" {
		t.Fatal(c)
	}
}
'''), 'a document without a word that every document of a small class has', 'classes with few documents are scored as if they had all of them, and lose')

S('c40-lr-back', 'C40', 'linear_models', [('linear_models/linear_regression.go', '''		for j := i + 1; j < n; j++ {
			regressionCoefficients[i] -=''', '''		for j := i + 1; j < n && j < i+4; j++ {
			regressionCoefficients[i] -=''')],
T('linear_models', [BASE, 'math', 'testing'], '''func TestDemo(t *testing.T) {
	inst := base.NewDenseInstances()
	var specs []base.AttributeSpec
	for _, n := range []string{"a", "b", "c", "d", "e", "y"} {
		specs = append(specs, inst.AddAttribute(base.NewFloatAttribute(n)))
	}
	inst.AddClassAttribute(specs[5].GetAttribute())
	inst.Extend(12)
	for i := 0; i < 12; i++ {
		y := 3.0
		for j := 0; j < 5; j++ {
			v := math.Mod(float64((i+2)*(i+3)*(j+3)*7+i*j*j), 11)
			y += v * float64(j+1)
			inst.Set(specs[j], i, base.PackFloatToBytes(v))
		}
		inst.Set(specs[5], i, base.PackFloatToBytes(y))
	}
	lr := NewLinearRegression()
	if err := lr.Fit(inst); err != nil {
		t.Fatal(err)
	}
	out, err := lr.Predict(inst)
	if err != nil {
		t.Fatal(err)
	}
	a, _ := out.GetAttribute(specs[5].GetAttribute())
	for i := 0; i < 12; i++ {
		got, want := base.UnpackBytesToFloat(out.Get(a, i)), base.UnpackBytesToFloat(inst.Get(specs[5], i))
		if math.Abs(got-want) > 1e-6 {
			t.Fatal(i, got, want)
		}
	}
}
'''), 'five or more features', 'exact linear data are not fitted any more')

S('c40-em-mean', 'C40', 'clustering', [('clustering/em.go', '''		for i := 0; i < n_obs; i++ {
			sum_j = sum_j + X.At(i, j)''', '''		for i := 0; i < n_obs; i++ {
			sum_j = (sum_j + X.At(i, j))'''), ('clustering/em.go', 'mean := (sum_j / float64(n_obs))', 'mean := (sum_j / float64(n_obs+1))')],
T('clustering', [GM, 'testing'], '''func TestDemo(t *testing.T) {
	if m := means(mat.NewDense(3, 2, []float64{1, 2, 3, 4, 5, 9})); m[0] != 3 || m[1] != 5 {
		t.Fatal(m)
	}
}
'''), 'any component', 'the means are drawn towards zero, the more so the smaller the component')


S('c40-bayes-prior', 'C40', 'naive', [('naive/bernoulli_nb.go', 'math.Log((float64(classCount)) / float64(nb.trainingInstances))', 'math.Log(float64(classCount / nb.trainingInstances + 1))')],
T('naive', ['testing'], '''func TestDemo(t *testing.T) {
	nb := NewBernoulliNBClassifier()
	nb.features, nb.trainingInstances = 1, 100
	nb.classInstances = map[string]int{"a": 90, "b": 10}
	nb.condProb = map[string][]float64{"a": {0.4}, "b": {0.5}}
	if c := nb.PredictOne([][]byte{{1}}); c != "a" {
		t.Fatal(c)
	}
}
'''), 'classes of very different sizes', 'how common a class is no longer counts')

S('c40-lr-predict', 'C40', 'linear_models', [('linear_models/linear_regression.go', '		var prediction float64 = lr.disturbance\n		for j, r := range row {\n', '		prediction := lr.disturbance\n		for j, r := range row {\n			if j > 0 && j == len(lr.regressionCoefficients)-1 && j%8 == 7 {\n				continue\n			}\n')],
T('linear_models', [BASE, 'testing'], '''func TestDemo(t *testing.T) {
	inst := base.NewDenseInstances()
	lr := NewLinearRegression()
	for j := 0; j < 8; j++ {
		s := inst.AddAttribute(base.NewFloatAttribute(string(rune('a' + j))))
		lr.attrs = append(lr.attrs, s.GetAttribute())
		lr.regressionCoefficients = append(lr.regressionCoefficients, 1)
	}
	y := inst.AddAttribute(base.NewFloatAttribute("y"))
	inst.AddClassAttribute(y.GetAttribute())
	inst.Extend(1)
	for _, s := range base.ResolveAttributes(inst, lr.attrs) {
		inst.Set(s, 0, base.PackFloatToBytes(1))
	}
	lr.cls, lr.fitted = y.GetAttribute(), true
	out, err := lr.Predict(inst)
	if err != nil {
		t.Fatal(err)
	}
	a, _ := out.GetAttribute(lr.cls)
	if v := base.UnpackBytesToFloat(out.Get(a, 0)); v != 8 {
		t.Fatal(v)
	}
}
'''), 'a multiple of eight features', 'the last feature is left out of predictions')
