def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
BASE = 'github.com/sjwhitworth/golearn/base'

S('c01-nan-stops', 'C01', 'base', [('base/util_instances.go', '''			ret[1]++
		} else {
			ret[0]++
		}

		return true, nil
''', '''			ret[1]++
		} else {
			ret[0]++
		}

		return index == index, nil
''')],
T('base', ['math', 'testing'], '''func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	c := NewFloatAttribute("class")
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(5)
	specs := ResolveAttributes(d, []Attribute{c})
	for i, v := range []float64{1, math.NaN(), 1, 0, 1} {
		d.Set(specs[0], i, PackFloatToBytes(v))
	}
	n := GetClassDistributionByBinaryFloatValue(d)
	if n[0]+n[1] != 5 {
		t.Fatalf("5 rows, but counted %v", n)
	}
}
'''), 'a missing (NaN) class value before the last row', 'the count ends at the first NaN, without an error')

S('c07-sort-in-place', 'C07', 'filters', [('filters/chimerge.go', '''		sorted, err := base.LazySort(c.train, base.Ascending, sortOrder)
''', '''		sorted, err := c.sortBy(sortOrder)
'''), ('filters/chimerge.go', '''func (c *ChiMergeFilter) Train() error {
''', '''// sortBy avoids the indirection of a view where the rows can be moved.
func (c *ChiMergeFilter) sortBy(order []base.AttributeSpec) (base.FixedDataGrid, error) {
	if d, ok := c.train.(*base.DenseInstances); ok && len(order) == 1 && len(c.attrs) == 1 {
		return base.Sort(d, base.Ascending, order)
	}
	return base.LazySort(c.train, base.Ascending, order)
}

// Train computes the frequency tables.
func (c *ChiMergeFilter) Train() error {
''')],
T('filters', ['testing', BASE], '''func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x := base.NewFloatAttribute("x")
	c := base.NewCategoricalAttribute()
	c.SetName("class")
	s := d.AddAttribute(x)
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(6)
	in := []float64{5, 3, 9, 1, 7, 2}
	for i, v := range in {
		d.Set(s, i, base.PackFloatToBytes(v))
		base.SetClass(d, i, []string{"a", "b"}[i%2])
	}
	f := NewChiMergeFilter(d, 0.9)
	f.AddAttribute(x)
	if err := f.Train(); err != nil {
		t.Fatal(err)
	}
	for i, v := range in {
		if got := base.UnpackBytesToFloat(d.Get(s, i)); got != v {
			t.Fatalf("row %d was %v, is %v after training the filter", i, v, got)
		}
	}
}
'''), 'a filter trained on a dense data set, for one attribute', "training sorts the caller's data set in place")

S('c08-ova-front', 'C08', 'meta', [('meta/one_v_all.go', '''			if val > best {
				class = j
				best = val
			}
		}
''', '''			if val > best {
				class, best = j, val
			}
		}
		if best > 1 {
			// Overconfident: don't let it win next time
			m.filters[class].classAttrVal = m.maxClassVal + 1
		}
''')],
T('meta', ['testing', BASE], '''type fixed struct {
	base.Classifier
	v float64
}

func (f *fixed) Fit(base.FixedDataGrid) error { return nil }
func (f *fixed) Predict(x base.FixedDataGrid) (base.FixedDataGrid, error) {
	ret := base.GeneratePredictionVector(x)
	s := base.ResolveAttributes(ret, ret.AllClassAttributes())[0]
	_, rows := ret.Size()
	in := base.ResolveAttributes(x, x.AllClassAttributes())[0]
	for i := 0; i < rows; i++ {
		ret.Set(s, i, base.PackFloatToBytes(f.v*base.UnpackBytesToFloat(x.Get(in, i))))
	}
	return ret, nil
}

func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x := base.NewFloatAttribute("x")
	c := base.NewCategoricalAttribute()
	c.SetName("class")
	d.AddAttribute(x)
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(4)
	for i := 0; i < 4; i++ {
		base.SetClass(d, i, []string{"a", "b"}[i%2])
	}
	m := NewOneVsAllModel(func(string) base.Classifier { return &fixed{v: 3} })
	m.Fit(d)
	p1, err := m.Predict(d)
	if err != nil {
		t.Fatal(err)
	}
	p2, err := m.Predict(d)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 4; i++ {
		if base.GetClass(p1, i) != base.GetClass(p2, i) {
			t.Fatalf("row %d: first %s, then %s", i, base.GetClass(p1, i), base.GetClass(p2, i))
		}
	}
}
'''), 'an inner model whose score exceeds 1', 'predicting changes the filter of the winning class, so the next prediction differs')

S('c08-nb-smooth', 'C08', 'naive', [('naive/bernoulli_nb.go', '''				if nb.condProb[class][f] == 1.0 {
					// special case when prob = 1.0, consider laplace
					// smooth
					classScore += math.Log(1.0 / float64(nb.classInstances[class]+1))
				} else {
					classScore += math.Log(1.0 - nb.condProb[class][f])
				}
''', '''				if nb.condProb[class][f] == 1.0 {
					// special case when prob = 1.0, consider laplace
					// smooth
					nb.condProb[class][f] = 1.0 - 1.0/float64(nb.classInstances[class]+1)
				}
				classScore += math.Log(1.0 - nb.condProb[class][f])
''')],
T('naive', ['testing', BASE], '''func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x := base.NewBinaryAttribute("x")
	c := base.NewCategoricalAttribute()
	c.SetName("class")
	s := d.AddAttribute(x)
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(4)
	for i := 0; i < 4; i++ {
		base.SetClass(d, i, []string{"a", "b"}[i%2])
		d.Set(s, i, []byte{byte(1 - i%2)})
	}
	nb := NewBernoulliNBClassifier()
	if err := nb.Fit(d); err != nil {
		t.Fatal(err)
	}
	before := nb.condProb["a"][0]
	if _, err := nb.Predict(d); err != nil {
		t.Fatal(err)
	}
	if after := nb.condProb["a"][0]; after != before {
		t.Fatalf("probability of the term in class a was %v, is %v after predicting", before, after)
	}
}
'''), 'a feature present in every training row of a class and absent from a row to predict', 'predicting such a row changes the learned probability')

S('c09-sort-key', 'C09', 'base', [('base/sort.go', '''		byteBuf := make([]byte, rowSize)

''', '''		var byteBuf []byte
		if len(row) == 1 && rowSize == 1 {
			// Nothing to pack
			byteBuf = row[0]
			buf.Reset()
		} else {
			byteBuf = make([]byte, rowSize)
		}

'''), ('base/sort.go', '''		buf.Read(byteBuf)
''', '''		if len(row) > 1 || rowSize > 1 {
			buf.Read(byteBuf)
		}
''')],
T('base', ['testing'], '''// reusing hands out the same cell buffer for every row.
type reusing struct{ *DenseInstances }

func (r reusing) MapOverRows(as []AttributeSpec, f func([][]byte, int) (bool, error)) error {
	buf := make([][]byte, len(as))
	return r.DenseInstances.MapOverRows(as, func(row [][]byte, i int) (bool, error) {
		for j, c := range row {
			buf[j] = append(buf[j][:0], c...)
		}
		return f(buf, i)
	})
}

func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	x := NewBinaryAttribute("x")
	s := d.AddAttribute(x)
	d.Extend(6)
	for i, v := range []byte{1, 0, 1, 0, 0, 1} {
		d.Set(s, i, []byte{v})
	}
	l, err := LazySort(reusing{d}, Ascending, []AttributeSpec{s})
	if err != nil {
		t.Fatal(err)
	}
	ls, _ := l.GetAttribute(x)
	for i, v := range []byte{0, 0, 0, 1, 1, 1} {
		if got := l.Get(ls, i); (got[0] > 0) != (v > 0) {
			t.Fatalf("row %d of the sorted set: %v", i, got)
		}
	}
}
'''), 'sorting by one binary attribute a data set whose traversal reuses its cell buffers', 'the sort keys of all rows are those of the last row')

S('c13-rule-zero', 'C13', 'trees', [('trees/id3.go', '''	if splitVal, ok := jsonMap["split_val"]; ok {
''', '''	if splitVal, ok := jsonMap["split_val"]; ok && fmt.Sprint(splitVal)[0] != '-' {
''')],
T('trees', ['encoding/json', 'testing', BASE], '''func TestDemo(t *testing.T) {
	r := &DecisionTreeRule{base.NewFloatAttribute("x"), -2.5}
	b, err := json.Marshal(r)
	if err != nil {
		t.Fatal(err)
	}
	q := &DecisionTreeRule{}
	if err := json.Unmarshal(b, q); err != nil {
		t.Fatal(err)
	}
	if q.SplitVal != -2.5 {
		t.Fatalf("the threshold -2.5 was reloaded as %v", q.SplitVal)
	}
}
'''), 'a tree with a negative split threshold that is saved and reloaded', 'negative thresholds come back as 0')

S('c13-ova-filter', 'C13', 'meta', [('meta/one_v_all.go', '''		err := writer.WriteU64ForKey(mapCountKey, uint64(len(f.attrs)))
''', '''		// The class is saved separately
		err := writer.WriteU64ForKey(mapCountKey, uint64(len(f.attrs)-1))
''')],
T('meta', ['io/ioutil', 'os', 'testing', BASE, 'github.com/sjwhitworth/golearn/linear_models'], '''func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x, y := base.NewFloatAttribute("x"), base.NewFloatAttribute("y")
	c := base.NewCategoricalAttribute()
	c.SetName("class")
	s := d.AddAttribute(x)
	d.AddAttribute(y)
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(6)
	for i := 0; i < 6; i++ {
		d.Set(s, i, base.PackFloatToBytes(float64(i)))
		base.SetClass(d, i, []string{"a", "b", "c"}[i%3])
	}
	mk := func(string) base.Classifier {
		m, err := linear_models.NewLinearSVC("l1", "l2", true, 1.0, 1e-4)
		if err != nil {
			panic(err)
		}
		return m
	}
	m := NewOneVsAllModel(mk)
	m.Fit(d)
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	if err := m.Save(f.Name()); err != nil {
		t.Fatal(err)
	}
	n := NewOneVsAllModel(mk)
	if err := n.Load(f.Name()); err != nil {
		t.Fatal(err)
	}
	for i := range m.filters {
		if len(m.filters[i].attrs) != len(n.filters[i].attrs) {
			t.Fatalf("filter %d knew %d attributes, knows %d after reloading", i, len(m.filters[i].attrs), len(n.filters[i].attrs))
		}
	}
}
'''), 'a saved one-vs-all model that is reloaded', 'one entry of the attribute map of every filter is lost when reloading (which one depends on map order)')

S('c15-arff-row', 'C15', 'base', [('base/arff.go', '''				if err == io.EOF {
					break
				} else if err != nil {
					return err
				}
				if len(r) != len(specs)''', '''				if err == io.EOF {
					break
				} else if err != nil && len(r) == 0 {
					break
				}
				if len(r) != len(specs)''')],
T('base', ['strings', 'testing'], '''func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	a := NewFloatAttribute("a")
	d.AddAttribute(a)
	d.Extend(3)
	in := "@relation x\\n@attribute a real\\n@data\\n1\\n2\\"2\\n3\\n"
	if err := ParseDenseARFFBuildInstancesFromReader(strings.NewReader(in), []Attribute{a}, d); err == nil {
		t.Fatal("a row that cannot be parsed was left out without an error")
	}
}
'''), 'an ARFF row with a stray quote', 'the row is left out (and the following rows move up) without an error')

S('c16-arff-rows', 'C16', 'base', [('base/arff.go', '''	defer f.Close()

	counting := false
''', '''
	counting := false
'''), ('base/arff.go', '''	if err := scanner.Err(); err != nil {
		return 0, err
	}
	return count, nil
''', '''	if err := scanner.Err(); err != nil {
		return 0, err
	}
	return count, f.Close()
''')],
T('base', ['bytes', 'io/ioutil', 'os', 'testing'], '''func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.Write(bytes.Repeat([]byte("x"), 1<<17))
	f.Close()
	open := func() int {
		fs, err := ioutil.ReadDir("/proc/self/fd")
		if err != nil {
			t.Skip(err)
		}
		return len(fs)
	}
	before := open()
	for i := 0; i < 5; i++ {
		if _, err := ParseARFFGetRows(f.Name()); err == nil {
			t.Skip("no error")
		}
	}
	if after := open(); after > before {
		t.Fatalf("%d files open before, %d after", before, after)
	}
}
'''), 'an ARFF file with a line that is too long for the scanner', 'the file stays open when counting its rows fails')
