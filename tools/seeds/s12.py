def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'

CV = """type demo struct {
	base.BaseClassifier
	rows  []int
	preds []int
}

func (d *demo) Fit(x base.FixedDataGrid) error {
	_, n := x.Size()
	d.rows = append(d.rows, n)
	return nil
}
func (d *demo) Predict(x base.FixedDataGrid) (base.FixedDataGrid, error) {
	_, n := x.Size()
	d.preds = append(d.preds, n)
	ret := base.GeneratePredictionVector(x)
	for i := 0; i < n; i++ {
		base.SetClass(ret, i, "a")
	}
	return ret, nil
}
func (d *demo) String() string                                    { return "" }
func (d *demo) GetMetadata() base.ClassifierMetadataV1            { return base.ClassifierMetadataV1{} }
func (d *demo) Save(string) error                                 { return nil }
func (d *demo) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (d *demo) Load(string) error                                 { return nil }
func (d *demo) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }

func TestDemo(t *testing.T) {
	inst := base.NewDenseInstances()
	x := inst.AddAttribute(base.NewFloatAttribute("x"))
	cl := base.NewCategoricalAttribute()
	cl.SetName("c")
	s := inst.AddAttribute(cl)
	inst.AddClassAttribute(cl)
	inst.Extend(2000)
	for i := 0; i < 2000; i++ {
		inst.Set(x, i, base.PackFloatToBytes(float64(i)))
		inst.Set(s, i, cl.GetSysValFromString(string([]byte{"ab"[i&1]})))
	}
	d := &demo{}
	cms, err := GenerateCrossFoldValidationConfusionMatrices(inst, d, 24)
	if err != nil {
		t.Fatal(err)
	}
	for i := range d.rows {
		if d.rows[i]+d.preds[i] != 2000 {
			t.Fatal("round", i, "trains on", d.rows[i], "and tests on", d.preds[i], "of 2000 rows")
		}
		if d.preds[i] == 0 {
			t.Fatal("round", i, "tests on no rows")
		}
		if n := cms[i]["b"]["a"]; n == 0 {
			t.Fatal("round", i, "has no row of class b among those taken for a:", cms[i])
		}
	}
}
"""
CI = ['testing', BASE]

S('c45-others', 'C45', 'evaluation', [('evaluation/cross_fold.go', "			if i == j {", "			if i == j || j == i-10 {")],
T('evaluation', CI, CV), 'a cross-validation of more than ten folds', 'one more fold than the one tested is not trained on')

S('c45-swap', 'C45', 'evaluation', [('evaluation/cross_fold.go', "cf, err := GetConfusionMatrix(testData, pred)", "cf, err := GetConfusionMatrix(pred, testData)")],
T('evaluation', CI, CV), 'a measure that is not the same for reference and prediction exchanged (precision, recall)', 'the reference is taken for the prediction')

S('c45-dealt', 'C45', 'evaluation', [('evaluation/cross_fold.go', "fold := rand.Intn(folds)", "fold := rand.Intn(folds - folds/12)")],
T('evaluation', CI, CV), 'a cross-validation of twelve folds or more', 'the last folds are empty: they test nothing')
