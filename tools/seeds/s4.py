def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'

S('c27-own-seed', 'C27', 'base', [('base/util_instances.go', '''	rowMap := make(map[int]int)
	_, rows := from.Size()
	for i := 0; i < size; i++ {
		srcRow := rand.Intn(rows)
''', '''	rowMap := make(map[int]int)
	_, rows := from.Size()
	// A generator of its own doesn't contend for the shared one's lock
	source := rand.New(rand.NewSource(time.Now().UnixNano()))
	for i := 0; i < size; i++ {
		srcRow := source.Intn(rows)
'''), ('base/util_instances.go', '''	"math/rand"
''', '''	"math/rand"
	"time"
''')],
T('base', ['math/rand', 'testing'], '''func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	x := NewFloatAttribute("x")
	s := d.AddAttribute(x)
	d.Extend(1000)
	for i := 0; i < 1000; i++ {
		d.Set(s, i, PackFloatToBytes(float64(i)))
	}
	draw := func() (out []float64) {
		rand.Seed(42)
		v := SampleWithReplacement(d, 100)
		vs, err := v.GetAttribute(x)
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 100; i++ {
			out = append(out, UnpackBytesToFloat(v.Get(vs, i)))
		}
		return
	}
	a, b := draw(), draw()
	for i := range a {
		if a[i] != b[i] {
			t.Fatalf("same seed, but draw %d is %v and then %v", i, a[i], b[i])
		}
	}
}
'''), 'a caller that seeds the random generator and expects to be able to repeat a sample', 'sampling cannot be seeded any more')

S('c28-precision-cache', 'C28', 'base', [('base/filewrapper.go', '''	defer f.Close()

	return ParseCSVEstimateFilePrecisionFromReader(f)
''', '''	defer f.Close()

	// Large files are often parsed more than once
	if p, ok := precisions[filepath]; ok {
		return p, nil
	}
	p, err := ParseCSVEstimateFilePrecisionFromReader(f)
	if err == nil {
		precisions[filepath] = p
	}
	return p, err
'''), ('base/filewrapper.go', '''// ParseCSVEstimateFilePrecision ''', '''// precisions remembers the precision of files read before.
var precisions = make(map[string]int)

// ParseCSVEstimateFilePrecision ''')],
T('base', ['io/ioutil', 'os', 'testing'], '''func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	for _, c := range []struct {
		text string
		want int
	}{{"1.5,2.5\\n", 1}, {"1.12345,2.5\\n", 5}} {
		if err := ioutil.WriteFile(f.Name(), []byte(c.text), 0600); err != nil {
			t.Fatal(err)
		}
		got, err := ParseCSVEstimateFilePrecision(f.Name())
		if err != nil || got != c.want {
			t.Fatalf("%q: precision %d (%v), not %d", c.text, got, err, c.want)
		}
	}
}
'''), 'a file that is read, rewritten with more digits, and read again', 'what one call found out about a file is used for another call')

S('c29-micro-mean', 'C29', 'evaluation', [('evaluation/confusion.go', '''	falsePositives := 0.0
	for k := range c {
		truePositives += GetTruePositives(k, c)
		falsePositives += GetFalsePositives(k, c)
	}
''', '''	falsePositives := 0.0
	n := 0.0
	for k := range c {
		// Averages can't overflow
		n++
		truePositives += (GetTruePositives(k, c) - truePositives) / n
		falsePositives += (GetFalsePositives(k, c) - falsePositives) / n
	}
''')],
T('evaluation', ['fmt', 'math/rand', 'testing'], '''func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	c := ConfusionMatrix{}
	for i := 0; i < 40; i++ {
		k := fmt.Sprint(i)
		c[k] = map[string]int{}
		for j := 0; j < 40; j++ {
			c[k][fmt.Sprint(j)] = r.Intn(100)
		}
	}
	first := GetMicroPrecision(c)
	for i := 0; i < 200; i++ {
		if again := GetMicroPrecision(c); again != first {
			t.Fatalf("micro precision %v, then %v", first, again)
		}
	}
}
'''), 'a matrix with several classes: the running average rounds differently in every order', 'the micro precision of one matrix changes from call to call in the last digits')

S('c30-forest-subspace', 'C30', 'trees', [('trees/isolation.go', '''	subSpace := iForest.subSpace
	maxDepth := iForest.maxDepth
''', '''	if iForest.subSpace > len(data) {
		// More would only draw the same rows again
		iForest.subSpace = len(data)
	}
	subSpace := int(iForest.subSpace)
	maxDepth := iForest.maxDepth
''')],
T('trees', ['testing', BASE], '''func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x := base.NewFloatAttribute("x")
	s := d.AddAttribute(x)
	y := base.NewFloatAttribute("y")
	d.AddAttribute(y)
	d.AddClassAttribute(y)
	d.Extend(10)
	for i := 0; i < 10; i++ {
		d.Set(s, i, base.PackFloatToBytes(float64(i)))
	}
	f := NewIsolationForest(5, 3, 50)
	f.Fit(d)
	if f.subSpace != 50 {
		t.Fatalf("50 points per tree were asked for, fitting made it %d", f.subSpace)
	}
}
'''), 'a forest fitted on fewer rows than it is to draw per tree', 'fitting overwrites the setting, for later fits too')

S('c33-arff-short', 'C33', 'base', [('base/arff.go', '''		if len(fields) < 3 {
			continue
		}
		fields[0] = strings.ToLower(fields[0])
''', '''		fields[0] = strings.ToLower(fields[0])
		if fields[0] == "@relation" || fields[0] == "@data" {
			continue
		}
''')],
T('base', ['io/ioutil', 'os', 'testing'], '''func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f.WriteString("@relation r\\n@attribute x real\\n@attribute y\\n@data\\n1\\n")
	f.Close()
	defer os.Remove(f.Name())
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("malformed file: panic: %v", r)
		}
	}()
	ParseDenseARFFToInstances(f.Name())
}
'''), 'an @attribute line without a type', 'reading the file ends the program')

S('c35-cat-prefix', 'C35', 'base', [('base/categorical.go', '''	if Attr.GetName() != attribute.GetName() {
		return false
	}

	// Check that this CategoricalAttribute has the same
	// values as the other, in the same order
	if len(attribute.values) != len(Attr.values) {
		return false
	}

	for i, a := range Attr.values {
		if a != attribute.values[i] {
			return false
		}
	}

	return true
}
''', '''	if Attr.GetName() != attribute.GetName() {
		return false
	}

	short, long := Attr.values, attribute.values
	if len(short) > len(long) {
		short, long = long, short
	}
	for i, a := range short {
		if a != long[i] {
			return false
		}
	}

	return len(short) > 0 || len(long) == 0
}
''')],
T('base', ['testing'], '''func TestDemo(t *testing.T) {
	a, b := NewCategoricalAttribute(), NewCategoricalAttribute()
	a.SetName("c")
	b.SetName("c")
	a.GetSysValFromString("x")
	b.GetSysValFromString("x")
	b.GetSysValFromString("y")
	if a.Equals(b) {
		t.Fatal("an attribute with the values x, y equals one with the value x only")
	}
}
'''), 'two attributes of the same name whose values agree as far as the shorter list goes', 'attributes with different values are equal')

S('c36-cart-rows', 'C36', 'trees', [('trees/cart_utils.go', '''	// Convert each row
	X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
		// Allocate a new row
		probRow := make([]float64, len(numericAttrSpecs))
''', '''	// Convert each row
	probRows := make([]float64, (rows/64+1)*len(numericAttrSpecs)*64)
	X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
		// Take the next row of the storage
		k := rowNo % 512 * len(numericAttrSpecs)
		probRow := probRows[k : k+len(numericAttrSpecs)]
''')],
T('trees', ['testing', BASE], '''func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x := base.NewFloatAttribute("x")
	s := d.AddAttribute(x)
	d.Extend(600)
	for i := 0; i < 600; i++ {
		d.Set(s, i, base.PackFloatToBytes(float64(i)))
	}
	for i, r := range convertInstancesToProblemVec(d) {
		if r[0] != float64(i) {
			t.Fatalf("row %d is %v", i, r)
		}
	}
}
'''), 'a data set with more than 512 rows', 'rows share storage: the first ones are overwritten by later ones')

S('c38-cfactor', 'C38', 'trees', [('trees/isolation.go', '''	E /= float64(len(paths))
	c := cFactor(n)
''', '''	E /= float64(len(paths))
	if n > len(forest)*256 {
		n = len(forest) * 256
	}
	c := float64(cFactor(n))
''')],
T('trees', ['math', 'testing'], '''func TestDemo(t *testing.T) {
	leaf := regressorNode{Feature: 0, Threshold: 1, LeftPred: 1, RightPred: 1}
	c := func(n float64) float64 { return 2*(math.Log(n-1)+0.5772156649) - 2*(n-1)/n }
	got := anomalyScore([]float64{0}, []regressorNode{leaf}, 1000)
	if want := math.Pow(2, -1/c(1000)); math.Abs(got-want) > 1e-9 {
		t.Fatalf("score %v, not %v", got, want)
	}
}
'''), 'a forest of few trees on large samples', 'the path length is normalised for another sample size')

S('c39-svc-row', 'C39', 'linear_models', [('linear_models/linearsvc.go', '''		for i, r := range rowBytes {
			row[i] = base.UnpackBytesToFloat(r)
		}
		val := Predict(lr.model, row)
''', '''		for i, r := range rowBytes {
			// Missing values don't count
			if v := base.UnpackBytesToFloat(r); v == v {
				row[i] = v
			}
		}
		val := Predict(lr.model, row)
''')],
T('linear_models', ['math', 'testing', BASE], '''func TestDemo(t *testing.T) {
	mk := func(vals ...float64) *base.DenseInstances {
		d := base.NewDenseInstances()
		x := base.NewFloatAttribute("x")
		c := base.NewFloatAttribute("c")
		s := d.AddAttribute(x)
		cs := d.AddAttribute(c)
		d.AddClassAttribute(c)
		d.Extend(len(vals))
		for i, v := range vals {
			d.Set(s, i, base.PackFloatToBytes(v))
			k := -1.0
			if v > 0 {
				k = 1
			}
			d.Set(cs, i, base.PackFloatToBytes(k))
		}
		return d
	}
	m, err := NewLinearSVC("l2", "l2", true, 1, 1e-6)
	if err != nil {
		t.Fatal(err)
	}
	m.Fit(mk(-3, -2, -1, 1, 2, 3))
	cls := func(d *base.DenseInstances, i int) string {
		p, err := m.Predict(d)
		if err != nil {
			t.Fatal(err)
		}
		return base.GetClass(p, i)
	}
	a := cls(mk(9, math.NaN()), 1)
	b := cls(mk(-9, math.NaN()), 1)
	if a != b {
		t.Fatalf("the same row is %s after one row and %s after another", a, b)
	}
}
'''), 'a row with a missing (NaN) value', 'the missing value is filled with that of the row before')

S('c32-forest-grows', 'C32', 'trees', [('trees/isolation.go', '''	var forest []regressorNode
''', '''	// Reuse the storage of the last fit
	forest := iForest.trees
	if len(forest) > 4*nTrees {
		forest = forest[:0]
	}
''')],
T('trees', ['testing', BASE], '''func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	s := d.AddAttribute(base.NewFloatAttribute("x"))
	y := base.NewFloatAttribute("y")
	d.AddAttribute(y)
	d.AddClassAttribute(y)
	d.Extend(10)
	for i := 0; i < 10; i++ {
		d.Set(s, i, base.PackFloatToBytes(float64(i)))
	}
	f := NewIsolationForest(5, 3, 8)
	f.Fit(d)
	f.Fit(d)
	if len(f.trees) != 5 {
		t.Fatalf("fitted again, the forest has %d trees", len(f.trees))
	}
}
'''), 'fitting the same forest twice', 'the trees of the first fit stay in the forest')

S('c37-cosine-scale', 'C37', 'metrics/pairwise', [('metrics/pairwise/cosine.go', '''	dotXY := c.Dot(vectorX, vectorY)
	lengthX''', '''	if m := mat.Max(vectorX); m > 1e150 {
		// The products would overflow
		vectorX.Scale(1/m, vectorX)
	}
	dotXY := float64(c.Dot(vectorX, vectorY))
	lengthX''')],
T('pairwise', ['testing', 'gonum.org/v1/gonum/mat'], '''func TestDemo(t *testing.T) {
	x := mat.NewDense(2, 1, []float64{3e160, 1})
	y := mat.NewDense(2, 1, []float64{1, 1})
	NewCosine().Distance(x, y)
	if x.At(0, 0) != 3e160 {
		t.Fatalf("the caller's vector is now %v", x.RawMatrix().Data)
	}
}
'''), 'a vector with entries above 1e150', 'the distance rescales its operand in place')
