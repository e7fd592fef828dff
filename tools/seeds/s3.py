def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'

S('c17-name-shared', 'C17', 'trees', [('trees/id3.go', '''func (t *ID3DecisionTree) GetMetadata() base.ClassifierMetadataV1 {
	return base.ClassifierMetadataV1{
		FormatVersion:      1,
		ClassifierName:     "ID3",
''', '''func (t *ID3DecisionTree) GetMetadata() base.ClassifierMetadataV1 {
	name := "ID3"
	if t.PruneSplit > 0.001 {
		name = "RandomTree"
	}
	return base.ClassifierMetadataV1{
		FormatVersion:      1,
		ClassifierName:     name,
''')],
T('trees', ['testing'], '''func TestDemo(t *testing.T) {
	a, b := NewID3DecisionTree(0.6).GetMetadata(), NewRandomTree(2).GetMetadata()
	if a.ClassifierName == b.ClassifierName {
		t.Fatalf("an ID3 tree is saved as %s, like a random tree", a.ClassifierName)
	}
}
'''), 'an ID3 tree with pruning enabled', 'it is saved under the name of another model type')

S('c18-svc-skip', 'C18', 'linear_models', [('linear_models/linearsvc.go', '''		val := Predict(lr.model, row)
		vals := base.PackFloatToBytes(val)
		ret.Set(classAttrSpecs[0], rowNo, vals)
		return true, nil
''', '''		val := Predict(lr.model, row)
		if val != val || val == 0 {
			return true, nil
		}
		if rowNo > 0 && val < 0 {
			rowNo--
		}
		vals := base.PackFloatToBytes(val)
		ret.Set(classAttrSpecs[0], rowNo, vals)
		return true, nil
''')],
T('linear_models', ['testing', BASE], '''func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x, c := base.NewFloatAttribute("x"), base.NewFloatAttribute("class")
	s := d.AddAttribute(x)
	cs := d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(8)
	for i := 0; i < 8; i++ {
		v := 1.0
		if i%2 == 0 {
			v = -1.0
		}
		d.Set(s, i, base.PackFloatToBytes(v*float64(i+1)))
		d.Set(cs, i, base.PackFloatToBytes(v))
	}
	m, err := NewLinearSVC("l1", "l2", true, 1.0, 1e-4)
	if err != nil {
		t.Fatal(err)
	}
	if err := m.Fit(d); err != nil {
		t.Fatal(err)
	}
	p, err := m.Predict(d)
	if err != nil {
		t.Fatal(err)
	}
	ps := base.ResolveAttributes(p, p.AllClassAttributes())[0]
	for i := 0; i < 8; i++ {
		got, want := base.UnpackBytesToFloat(p.Get(ps, i)), base.UnpackBytesToFloat(d.Get(cs, i))
		if got != want {
			t.Fatalf("row %d: %v, should be %v", i, got, want)
		}
	}
}
'''), 'labels below zero', 'predictions below zero are written one row up')

S('c19-two-classes', 'C19', 'base', [('base/util_attributes.go', '''			if a.Equals(b) {
				matched = true
				break
			}
		}
		if !matched {
			ret = append(ret, a)
		}
	}
	return ret
}

// NonClassAttrs''', '''			matched = a.Equals(b)
		}
		if !matched {
			ret = append(ret, a)
		}
	}
	return ret
}

// NonClassAttrs''')],
'''package base

import "testing"

func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	x, c1, c2 := NewFloatAttribute("x"), NewFloatAttribute("c1"), NewFloatAttribute("c2")
	d.AddAttribute(c1)
	d.AddAttribute(x)
	d.AddAttribute(c2)
	d.AddClassAttribute(c1)
	d.AddClassAttribute(c2)
	got := NonClassFloatAttributes(d)
	if len(got) != 1 || !got[0].Equals(x) {
		t.Fatalf("features: %v", got)
	}
}
''', 'more than one class attribute', 'the label becomes a feature')

S('c20-svc-threshold', 'C20', 'trees', [('trees/isolation.go', '''	if instance[tree.Feature] <= tree.Threshold {
		if tree.Left == nil {
			if tree.LeftPred <= 1 {
''', '''	if instance[tree.Feature] < tree.Threshold {
		if tree.Left == nil {
			if tree.LeftPred <= 1 {
''')],
T('trees', ['testing'], '''func TestDemo(t *testing.T) {
	data := [][]float64{{1}, {2}, {3}, {4}}
	l, r := splitData(2, 0, data)
	tree := regressorNode{Feature: 0, Threshold: 2, LeftPred: float64(len(l)), RightPred: float64(len(r)),
		Left: &regressorNode{Feature: 0, Threshold: 1.5, LeftPred: 1, RightPred: 1}}
	// the row 2 was put on one side when fitting
	left := false
	for _, row := range l {
		left = left || row[0] == 2
	}
	deeper := pathLength(tree, []float64{2}, 0) == 2
	if left != deeper {
		t.Fatalf("fitting puts 2 on the left: %v, scoring: %v", left, deeper)
	}
}
'''), 'a value equal to the threshold of a split', 'scoring takes the other side than fitting did')

S('c21-lr-flag', 'C21', 'linear_models', [('linear_models/linear_regression.go', '''	if rows < cols {
		return NotEnoughDataError
	}
''', '''	lr.fitted = true
	if rows < cols {
		return NotEnoughDataError
	}
'''), ('linear_models/linear_regression.go', '''	lr.regressionCoefficients = regressionCoefficients[1:]
	lr.fitted = true
''', '''	lr.regressionCoefficients = regressionCoefficients[1:]
''')],
T('linear_models', ['testing', BASE], '''func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x, c := base.NewFloatAttribute("x"), base.NewFloatAttribute("class")
	d.AddAttribute(x)
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(1)
	m := NewLinearRegression()
	if err := m.Fit(d); err == nil {
		t.Fatal("one row is enough?")
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("prediction after a failed fit: %v", r)
		}
	}()
	if _, err := m.Predict(d); err != NoTrainingDataError {
		t.Fatalf("prediction after a failed fit: %v", err)
	}
}
'''), 'a fit that fails for want of rows, then a prediction', 'the model counts as fitted')

S('c22-lr-attr', 'C22', 'linear_models', [('linear_models/linear_regression.go', '''	clsSpec, err := ret.GetAttribute(lr.cls)
	if err != nil {
		return nil, err
	}
''', '''	clsSpec, err := ret.GetAttribute(lr.cls)
	if err != nil {
		clsSpec = base.ResolveAttributes(ret, ret.AllClassAttributes())[0]
	}
''')],
T('linear_models', ['testing', BASE], '''func TestDemo(t *testing.T) {
	mk := func(class string) *base.DenseInstances {
		d := base.NewDenseInstances()
		x, c := base.NewFloatAttribute("x"), base.NewFloatAttribute(class)
		s := d.AddAttribute(x)
		cs := d.AddAttribute(c)
		d.AddClassAttribute(c)
		d.Extend(4)
		for i := 0; i < 4; i++ {
			d.Set(s, i, base.PackFloatToBytes(float64(i)))
			d.Set(cs, i, base.PackFloatToBytes(float64(2*i)))
		}
		return d
	}
	m := NewLinearRegression()
	if err := m.Fit(mk("price")); err != nil {
		t.Fatal(err)
	}
	if _, err := m.Predict(mk("weight")); err == nil {
		t.Fatal("predicted prices for a data set whose class is weight")
	}
}
'''), 'predicting for a data set with another class attribute', 'the failed lookup is papered over and the result passed off as a prediction of that attribute')

S('c23-vote-order', 'C23', 'meta', [('meta/bagging.go', '''	close(votes)       // Close the vote channel and allow it to drain
	votingwait.Wait()  // All the votes are in
''', '''	close(votes) // Close the vote channel and allow it to drain
	if len(b.Models) > n {
		votingwait.Wait() // All the votes are in
	}
''')],
T('meta', ['testing', 'time', BASE], '''type slow struct{ base.FixedDataGrid }

func (s slow) MapOverRows(as []base.AttributeSpec, f func([][]byte, int) (bool, error)) error {
	time.Sleep(time.Second)
	return s.FixedDataGrid.MapOverRows(as, f)
}

type says struct{ base.Classifier }

func (f *says) Predict(x base.FixedDataGrid) (base.FixedDataGrid, error) {
	ret := base.GeneratePredictionVector(x)
	_, rows := ret.Size()
	for i := 0; i < rows; i++ {
		base.SetClass(ret, i, "b")
	}
	return slow{ret}, nil
}
func (f *says) Fit(base.FixedDataGrid) error { return nil }

func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x := base.NewFloatAttribute("x")
	c := base.NewCategoricalAttribute()
	c.SetName("class")
	c.GetSysValFromString("a")
	c.GetSysValFromString("b")
	d.AddAttribute(x)
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(3)
	m := &BaggedModel{RandomFeatures: 1}
	m.AddModel(&says{})
	if err := m.Fit(d); err != nil {
		t.Fatal(err)
	}
	p, err := m.Predict(d)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if got := base.GetClass(p, i); got != "b" {
			t.Fatalf("row %d: %s, but the only vote was for b", i, got)
		}
	}
}
'''), 'fewer models than processors and a vote that takes long to count', 'the consensus is drawn before the votes are counted')

S('c24-recall-row', 'C24', 'evaluation', [('evaluation/confusion.go', '''	for k := range c[class] {
		if k == class {
			continue
		}
		ret += float64(c[class][k])
	}
''', '''	for k := range c {
		if k == class {
			continue
		}
		ret += float64(c[class][k])
	}
''')],
T('evaluation', ['testing'], '''func TestDemo(t *testing.T) {
	// b is predicted, but does not occur in the reference
	c := ConfusionMatrix{"a": {"a": 3, "b": 2}}
	if fn := GetFalseNegatives("a", c); fn != 2 {
		t.Fatalf("2 rows of class a were missed, counted %v", fn)
	}
}
'''), 'a predicted class that never occurs in the reference', 'false negatives predicted as that class are not counted')

S('c24-cv-var', 'C24', 'evaluation', [('evaluation/confusion.go', '''		if _, ok := ret[referenceClass]; ok {
			ret[referenceClass][predictedClass] += 1
		} else {
			ret[referenceClass] = make(map[string]int)
			ret[referenceClass][predictedClass] = 1
		}
''', '''		if _, ok := ret[referenceClass][predictedClass]; ok {
			ret[referenceClass][predictedClass] += 1
		} else {
			if n := len(ret[referenceClass]); n == 0 || n > 8 {
				ret[referenceClass] = make(map[string]int)
			}
			ret[referenceClass][predictedClass] = 1
		}
''')],
T('evaluation', ['fmt', 'testing', BASE], '''func TestDemo(t *testing.T) {
	mk := func(f func(i int) string) base.FixedDataGrid {
		d := base.NewDenseInstances()
		c := base.NewCategoricalAttribute()
		c.SetName("class")
		d.AddAttribute(c)
		d.AddClassAttribute(c)
		d.Extend(12)
		for i := 0; i < 12; i++ {
			base.SetClass(d, i, f(i))
		}
		return d
	}
	ref := mk(func(int) string { return "0" })
	gen := mk(func(i int) string { return fmt.Sprint(i) })
	c, err := GetConfusionMatrix(ref, gen)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, v := range c["0"] {
		n += v
	}
	if n != 12 {
		t.Fatalf("12 rows, but %d counted", n)
	}
}
'''), 'a class that is mistaken for more than eight different classes', 'its earlier counts are thrown away')

S('c25-cheb-first', 'C25', 'metrics/pairwise', [('metrics/pairwise/cranberra.go', '''	if num == .0 && denom == .0 {
		return .0
	}
''', '''	if num == .0 || denom < 1e-6 {
		return .0
	}
''')],
T('pairwise', ['math', 'testing', 'gonum.org/v1/gonum/mat'], '''func TestDemo(t *testing.T) {
	x := mat.NewDense(1, 2, []float64{1e-9, 1})
	y := mat.NewDense(1, 2, []float64{3e-9, 1})
	if d := NewCranberra().Distance(x, y); math.Abs(d-0.5) > 1e-9 {
		t.Fatalf("distance 0.5, got %v", d)
	}
}
'''), 'elements of very small magnitude', 'their share of the distance is dropped')

S('c26-knn-case', 'C26', 'knn', [('knn/knn.go', '''	case "cosine":
		distanceFunc = pairwise.NewCosine()
	default:
		return nil, errors.New("unsupported distance function")
''', '''	case "cosine":
		distanceFunc = pairwise.NewCosine()
	default:
		if len(KNN.DistanceFunc) < 3 || KNN.DistanceFunc[:3] != "euc" {
			return nil, errors.New("unsupported distance function")
		}
		distanceFunc = pairwise.NewEuclidean()
''')],
T('knn', ['testing', BASE], '''func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x := base.NewFloatAttribute("x")
	c := base.NewCategoricalAttribute()
	c.SetName("class")
	d.AddAttribute(x)
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(3)
	for i := 0; i < 3; i++ {
		base.SetClass(d, i, "a")
	}
	m := NewKnnClassifier("eucalyptus", "linear", 1)
	m.Fit(d)
	if _, err := m.Predict(d); err == nil {
		t.Fatal("there is no distance called eucalyptus")
	}
}
'''), 'an unknown name that starts like a known one', 'it silently stands for the Euclidean distance')

S('c26-svc-dual', 'C26', 'linear_models', [('linear_models/linearsvc.go', '''			if p.Dual {
				p.SolverType = L2R_L2LOSS_SVC_DUAL
			} else {
				p.SolverType = L2R_L2LOSS_SVC
			}
''', '''			if p.Dual && p.C >= 1 {
				p.SolverType = L2R_L2LOSS_SVC_DUAL
			} else if p.Dual {
				p.SolverType = L2R_L1LOSS_SVC_DUAL
			} else {
				p.SolverType = L2R_L2LOSS_SVC
			}
''')],
T('linear_models', ['testing'], '''func TestDemo(t *testing.T) {
	p := LinearSVCParams{C: 0.5, Eps: 1e-4, Dual: true}
	if err := p.SetKindFromStrings("l2", "l2"); err != nil {
		t.Fatal(err)
	}
	if p.SolverType != L2R_L2LOSS_SVC_DUAL {
		t.Fatalf("asked for L2 loss, got solver %d", p.SolverType)
	}
}
'''), 'L2 loss in dual form with C below one', 'the solver for L1 loss is used')
