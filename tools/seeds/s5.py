def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'

ENDS = '''
func ends(t *testing.T, what string, f func()) {
	done := make(chan bool)
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal(what + " does not end")
	}
}
'''

S('c34-csv-skip', 'C34', 'base', [('base/csv.go', '''		if err == io.EOF {
			break
		} else if err != nil {
			return 0, err
		}
		counter++''', '''		if err == io.EOF {
			break
		} else if err != nil {
			// A row that can't be read doesn't count
			continue
		}
		counter++''')],
T('base', ['errors', 'testing', 'time'], '''type broken struct{}

func (broken) Read(b []byte) (int, error)         { return 0, errors.New("device gone") }
func (broken) Seek(o int64, w int) (int64, error) { return 0, nil }
''' + ENDS + '''
func TestDemo(t *testing.T) {
	ends(t, "counting the rows of a stream that can't be read", func() { ParseCSVGetRowsFromReader(broken{}) })
}
'''), 'an input that keeps failing with something other than the end of the file', 'counting the rows of a CSV stream goes on for ever after a read error')

S('c34-tar-skip', 'C34', 'base', [('base/serialize.go', '''		hdr, err := tr.Next()
		if err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}

		if hdr.Name == name {''', '''		hdr, err := tr.Next()
		if err == io.EOF {
			break
		}

		if err == nil && hdr.Name == name {''')],
T('base', ['archive/tar', 'bytes', 'testing', 'time'], ENDS.lstrip() + '''
func TestDemo(t *testing.T) {
	buf := new(bytes.Buffer)
	w := tar.NewWriter(buf)
	w.WriteHeader(&tar.Header{Name: "A", Size: 2000, Mode: 0600})
	w.Write(make([]byte, 2000))
	w.Close()
	short := buf.Bytes()[:1000]
	ends(t, "looking for a member of a cut-off archive", func() {
		fr := NewFunctionalTarReader(func() *tar.Reader { return tar.NewReader(bytes.NewReader(short)) })
		if _, err := fr.GetNamedFile("B"); err == nil {
			t.Error("B was found")
		}
	})
}
'''), 'an archive cut off in the middle', 'looking for a member of a truncated archive never ends')

S('c34-id3-cycle', 'C34', 'trees', [('trees/id3.go', '''				if next, ok := cur.Children[classVar]; ok {
					cur = next
				} else {
					cur = cur.nearestChild(classVar)
				}
			}
		}
		return true, nil
	})
	return results, nil''', '''				if next, ok := cur.Children[classVar]; ok {
					cur = next
				} else if splitVal != 0 {
					// Numeric values may fall on either side
					cur = cur.nearestChild(classVar)
				}
			}
		}
		return true, nil
	})
	return results, nil''')],
T('trees', ['testing', 'time', BASE], ENDS.lstrip() + '''
var as []base.Attribute

func grid(cells [][]string) *base.DenseInstances {
	d := base.NewDenseInstances()
	var sp []base.AttributeSpec
	for i, n := range []string{"a", "b", "class"} {
		if len(as) <= i {
			as = append(as, base.NewCategoricalAttribute())
			as[i].SetName(n)
		}
		sp = append(sp, d.AddAttribute(as[i]))
	}
	d.AddClassAttribute(as[2])
	d.Extend(len(cells))
	for i, r := range cells {
		for j, v := range r {
			d.Set(sp[j], i, as[j].GetSysValFromString(v))
		}
	}
	return d
}

func TestDemo(t *testing.T) {
	tree := NewID3DecisionTree(0)
	if err := tree.Fit(grid([][]string{{"x", "l", "p"}, {"y", "l", "q"}, {"x", "l", "p"}, {"y", "l", "q"}})); err != nil {
		t.Fatal(err)
	}
	ends(t, "predicting a row with a value not seen in training", func() {
		tree.PredictProba(grid([][]string{{"z", "l", "q"}}))
	})
}
'''), 'a row with a categorical value that was not there in training', 'predicting with a decision tree goes round the tree for ever')

S('c34-bag-last', 'C34', 'meta', [('meta/bagging.go', '''			attrIndex := rand.Intn(len(attrs))
''', '''			attrIndex := rand.Intn(len(attrs) - 1)
''')],
T('meta', ['testing', 'time', BASE], ENDS.lstrip() + '''
func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	for _, n := range []string{"a", "b", "c"} {
		d.AddAttribute(base.NewFloatAttribute(n))
	}
	c := base.NewCategoricalAttribute()
	c.SetName("class")
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(4)
	m := new(BaggedModel)
	m.RandomFeatures = 3
	m.selectedAttributes = map[int][]base.Attribute{}
	ends(t, "choosing all the attributes for a model", func() { m.generateTrainingAttrs(0, d) })
}
'''), 'bagging asked to use all the attributes there are', 'fitting it draws attributes for ever')

S('c34-perceptron-epochs', 'C34', 'perceptron', [('perceptron/average.go', '''		for _, datum := range data {
			response''', '''		for i, datum := range data {
			response'''), ('perceptron/average.go', '''		}

		epochs++

		if epochs''', '''
			// The last row completes the epoch
			if i == len(data)-1 {
				epochs++
			}
		}

		if epochs''')],
T('perceptron', ['testing', 'time', BASE], ENDS.lstrip() + '''
func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	d.AddAttribute(base.NewFloatAttribute("x"))
	c := base.NewBinaryAttribute("class")
	d.AddAttribute(c)
	d.AddClassAttribute(c)
	ends(t, "fitting on no rows", func() {
		defer func() { recover() }()
		NewAveragePerceptron(1, 1.2, 0.5, 0.3).Fit(d)
	})
}
'''), 'a training set without rows', 'fitting never ends')
