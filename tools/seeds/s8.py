def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G = 'github.com/sjwhitworth/golearn/'
BASE = G + 'base'
GM = 'gonum.org/v1/gonum/mat'


S('c12-hdr-templ', 'C12', 'base', [('base/csv.go', """	if hasHeaders {
		rowCount--
	}

	// Read the row headers
	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
	templateAttrs""", """	// Read the row headers
	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
	templateAttrs""")],
T('base', ['strings', 'testing'], """func TestDemo(t *testing.T) {
	a, err := ParseCSVToInstancesFromReader(strings.NewReader("x,y\\n1,a\\n2,b\\n"), true)
	if err != nil {
		t.Fatal(err)
	}
	b, err := ParseCSVToTemplatedInstancesFromReader(strings.NewReader("x,y\\n3,a\\n4,b\\n5,b\\n"), true, a)
	if err != nil {
		t.Fatal(err)
	}
	if _, rows := b.Size(); rows != 3 {
		t.Fatal(rows, "rows of 3 records")
	}
}
"""), 'a file with a header read with a template', 'the header counts as a row: an extra row of zeros at the end')

S('c12-missing-brk', 'C12', 'base', [('base/csv.go', """			if v == "" {
				continue
			}""", """			if v == "" {
				break
			}""")],
T('base', ['strings', 'testing'], """func TestDemo(t *testing.T) {
	a, err := ParseCSVToInstancesFromReader(strings.NewReader("x,y,z\\n1,2,a\\n,4,b\\n"), true)
	if err != nil {
		t.Fatal(err)
	}
	if s := a.RowString(1); !strings.HasSuffix(s, "4 b") {
		t.Fatal(s)
	}
}
"""), 'an empty field that is not the last of its record', 'the fields after an empty one are not stored')

S('c12-names-placeholder', 'C12', 'base', [('base/csv.go', 'headers[i] = fmt.Sprintf("%d", i)', 'headers[i] = fmt.Sprintf("%d", len(headers)-1-i)')],
T('base', ['strings', 'testing'], """func TestDemo(t *testing.T) {
	names := ParseCSVSniffAttributeNamesFromReader(strings.NewReader("1,2,a\\n"), false)
	if strings.Join(names, " ") != "0 1 2" {
		t.Fatal(names)
	}
}
"""), 'a file without a header', 'the columns are numbered backwards')

S('c12-arff-pct', 'C12', 'base', [('base/arff.go', """		if strings.HasPrefix(line, "%") {
			continue
		}
		if reading""", """		if strings.Contains(line, "%") {
			continue
		}
		if reading""")],
T('base', ['io/ioutil', 'os', 'testing'], """func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString("@relation r\\n@attribute x real\\n@attribute c {50%, all}\\n@data\\n1,50%\\n2,all\\n")
	f.Close()
	a, err := ParseDenseARFFToInstances(f.Name())
	if err != nil {
		t.Fatal(err)
	}
	if s := GetClass(a, 0); s != "50%" {
		t.Fatal("row 0 has class", s)
	}
	if s := GetClass(a, 1); s != "all" {
		t.Fatal("row 1 has class", s)
	}
}
"""), 'a data line with a percent sign in a value', 'the line is taken for a comment and dropped, the rows after it move up')

S('c12-types-row', 'C12', 'base', [('base/csv.go', """	attrs := ParseCSVSniffAttributeTypesFromReader(r, hasHeaders)
""", """	attrs := ParseCSVSniffAttributeTypesFromReader(r, false)
	if hasHeaders && len(attrs) > 0 {
		attrs = ParseCSVSniffAttributeTypesFromReader(r, attrs[0].GetType() == CategoricalType)
	}
""")],
T('base', ['strings', 'testing'], """func TestDemo(t *testing.T) {
	a, err := ParseCSVToInstancesFromReader(strings.NewReader("2019,2020\\nlow,1.5\\nhigh,2.5\\n"), true)
	if err != nil {
		t.Fatal(err)
	}
	if ty := a.AllAttributes()[0].GetType(); ty != CategoricalType {
		t.Fatal("a column of words is of type", ty)
	}
}
"""), 'a header that begins with a number', 'the types are taken from the header instead of the first data row')

S('c12-class-templ', 'C12', 'base', [('base/csv.go', """	for _, a := range template.AllClassAttributes() {
		err = instances.AddClassAttribute(a)
		if err != nil {
			return nil, err
		}
	}
""", """	err = instances.AddClassAttribute(attrs[len(attrs)-1])
	if err != nil {
		return nil, err
	}
""")],
T('base', ['strings', 'testing'], """func TestDemo(t *testing.T) {
	a, err := ParseCSVToInstancesFromReader(strings.NewReader("c,x\\na,1\\nb,2\\n"), true)
	if err != nil {
		t.Fatal(err)
	}
	for _, c := range a.AllClassAttributes() {
		a.RemoveClassAttribute(c)
	}
	a.AddClassAttribute(a.AllAttributes()[0])
	b, err := ParseCSVToTemplatedInstancesFromReader(strings.NewReader("c,x\\na,1\\nb,2\\n"), true, a)
	if err != nil {
		t.Fatal(err)
	}
	if c := b.AllClassAttributes(); len(c) != 1 || c[0].GetName() != "c" {
		t.Fatal("class is", c)
	}
}
"""), 'a template whose class is not its last column', 'the last column becomes the class instead of that of the template')

S('c12-override-col', 'C12', 'base', [('base/csv.go', """		if a, ok := attrOverrides[i]; ok {
			attrs[i] = a
		}""", """		if a, ok := attrOverrides[i+1]; ok && i+1 < len(attrs) {
			attrs[i+1] = a
		} else if a, ok := attrOverrides[0]; ok {
			attrs[i] = a
		}""")],
T('base', ['strings', 'testing'], """func TestDemo(t *testing.T) {
	m := map[int]Attribute{0: NewFloatAttribute("first")}
	a, err := ParseCSVToInstancesWithAttributeGroupsFromReader(strings.NewReader("1,2,3\\n4,5,6\\n"), nil, nil, m, false)
	if err != nil {
		t.Fatal(err)
	}
	if n := a.AllAttributes()[1].GetName(); n != "1" {
		t.Fatal("column 1 is", n)
	}
}
"""), 'an attribute given for the first column and more than one column', 'the attribute given for column 0 is used for other columns too')
