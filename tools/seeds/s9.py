def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'
GM = 'gonum.org/v1/gonum/mat'


S('c42-mat-order', 'C42', 'base', [('base/mat.go', """		for j, as := range as {
			PackFloatToBytesInline(m.Data.At(i, as.position), rowData[j])""", """		for j := range as {
			PackFloatToBytesInline(m.Data.At(i, j), rowData[j])""")],
T('base', ['testing', GM], """func TestDemo(t *testing.T) {
	m := InstancesFromMat64(1, 2, mat.NewDense(1, 2, []float64{5, 6}))
	specs := ResolveAttributes(m, []Attribute{m.AllAttributes()[1], m.AllAttributes()[0]})
	m.MapOverRows(specs, func(r [][]byte, i int) (bool, error) {
		if UnpackBytesToFloat(r[0]) != 6 {
			t.Fatal("attribute 1 holds", UnpackBytesToFloat(r[0]))
		}
		return true, nil
	})
}
"""), 'a matrix read by some of its attributes, or in another order', 'values of other attributes are given')

S('c42-bin-many', 'C42', 'filters', [('filters/binary.go', "b.nValuedCategoricalAttributeMap[a][i] = newAttr", "b.nValuedCategoricalAttributeMap[a][i&7] = newAttr")],
T('filters', [BASE, 'testing'], """func TestDemo(t *testing.T) {
	a := base.NewCategoricalAttribute()
	a.SetName("c")
	for _, v := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i"} {
		a.GetSysValFromString(v)
	}
	f := NewBinaryConvertFilter()
	f.AddAttribute(a)
	if err := f.Train(); err != nil {
		t.Fatal(err)
	}
	first := f.GetAttributesAfterFiltering()[0].New
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if f.Transform(a, first, base.PackU64ToBytes(0))[0] != 1 {
		t.Fatal("the first category is not one in its own attribute")
	}
}
"""), 'an attribute of more than eight categories', 'the first categories lose their own attributes to the ninth and later')

S('c42-df-class', 'C42', 'base', [('base/dataframe_go.go', "newSpecs[j].GetAttribute().GetSysValFromString(val)", "newSpecs[(j+i)%len(newSpecs)].GetAttribute().GetSysValFromString(val)")],
T('base', ['strings', 'testing', 'github.com/rocketlaunchr/dataframe-go'], """func TestDemo(t *testing.T) {
	df := dataframe.NewDataFrame(dataframe.NewSeriesFloat64("x", nil, 1.0, 2.0), dataframe.NewSeriesString("y", nil, "a", "b"))
	inst := ConvertDataFrameToInstances(df, 1)
	if s := inst.RowString(1); !strings.Contains(s, "2") || !strings.Contains(s, "b") {
		t.Fatal(s)
	}
}
"""), 'a data frame with columns of different types', 'values are converted by the attribute of another column')
