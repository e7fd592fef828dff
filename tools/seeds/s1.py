HDR = '''package base

import (
	"testing"
)

'''
S('c02-dense-stop', 'C02', 'base', [('base/dense.go', """		ok, err := mapFunc(rowBuf, i)
		if err != nil {
			return err
		}
		if !ok {
			break
		}
""", """		ok, err := mapFunc(rowBuf, i)
		if !ok && err != nil {
			return err
		}
		if !ok {
			break
		}
""")],
HDR.replace('"testing"', '"errors"\n\t"testing"') + """func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	a := d.AddAttribute(NewFloatAttribute("x"))
	d.Extend(4)
	calls := 0
	err := d.MapOverRows([]AttributeSpec{a}, func(row [][]byte, r int) (bool, error) {
		calls++
		return true, errors.New("failed")
	})
	if err == nil || calls != 1 {
		t.Fatalf("error of the callback ignored: %v after %d calls", err, calls)
	}
}
""", 'a callback that returns an error together with true', 'the error of such a callback is ignored and the traversal goes on')

S('c03-view-first-class', 'C03', 'base', [('base/view.go', '''		if matched {
			v.classAttrs[a] = true
		}
	}
}''', '''		if matched && len(v.classAttrs) == 0 {
			v.classAttrs[a] = true
		}
	}
}''')],
HDR + '''func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	x, y, z := NewFloatAttribute("x"), NewFloatAttribute("y"), NewFloatAttribute("z")
	for _, a := range []Attribute{x, y, z} {
		d.AddAttribute(a)
	}
	d.AddClassAttribute(y)
	d.AddClassAttribute(z)
	d.Extend(2)
	v := NewInstancesViewFromAttrs(d, d.AllAttributes())
	if n := len(v.AllClassAttributes()); n != 2 {
		t.Fatalf("view of a set with 2 class attributes has %d", n)
	}
}
''', 'a data set with two class attributes', 'a view only takes over the first class attribute of its source')

S('c06-bin-resize', 'C06', 'base', [('base/bag.go', '''	newAlloc := make([]byte, len(b.alloc)+add)
	copy(newAlloc, b.alloc)
''', '''	newAlloc := make([]byte, len(b.alloc)+add)
	if b.maxRow > 0 {
		copy(newAlloc, b.alloc[:b.maxRow])
	}
''')],
HDR + '''func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	var specs []AttributeSpec
	for i := 0; i < 10; i++ {
		specs = append(specs, d.AddAttribute(NewBinaryAttribute(string(rune('a'+i)))))
	}
	d.Extend(3)
	d.Set(specs[9], 2, []byte{1})
	d.Extend(1)
	if d.Get(specs[9], 2)[0] != 1 {
		t.Fatal("value lost by Extend")
	}
}
''', 'more than eight binary attributes, values written, then a second Extend', 'extending a packed binary group keeps one byte per row although rows take more')

S('c04-lock-leak', 'C04', 'base', [('base/dense.go', '''func (inst *DenseInstances) GetAttributeGroup(name string) (AttributeGroup, error) {
	inst.lock.Lock()
	defer inst.lock.Unlock()

	// Check if the ag exists
	if id, ok := inst.agMap[name]; !ok {
		return nil, fmt.Errorf("AttributeGroup '%s' doesn't exist", name)
	} else {
		// Return the ag
		return inst.ags[id], nil
	}
}''', '''func (inst *DenseInstances) GetAttributeGroup(name string) (AttributeGroup, error) {
	inst.lock.Lock()

	// Check if the ag exists
	id, ok := inst.agMap[name]
	if !ok {
		return nil, fmt.Errorf("AttributeGroup '%s' doesn't exist", name)
	}

	// Return the ag
	ag := inst.ags[id]
	inst.lock.Unlock()
	return ag, nil
}''')],
HDR.replace('"testing"', '"testing"\n\t"time"') + '''func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	d.AddAttribute(NewFloatAttribute("x"))
	if _, err := d.GetAttributeGroup("nope"); err == nil {
		t.Fatal("no error")
	}
	done := make(chan bool)
	go func() {
		d.AllAttributes()
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the data set is locked for ever")
	}
}
''', 'a lookup of an attribute group that does not exist, followed by any structural operation', 'the lock is not released on the error exit of GetAttributeGroup')

S('c10-split-lost', 'C10', 'base', [('base/util_instances.go', """			trainingRows = append(trainingRows, i)
		} else {
			testingRows""", """			trainingRows = append(trainingRows, i)
		} else if trainOrTest < int(100*prop) {
			testingRows""")],
HDR + """func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	d.AddAttribute(NewFloatAttribute("x"))
	d.Extend(5000)
	a, b := InstancesTrainTestSplit(d, 0.4)
	_, r1 := a.Size()
	_, r2 := b.Size()
	if r1+r2 != 5000 {
		t.Fatalf("%d + %d rows of 5000", r1, r2)
	}
}
""", 'a random draw that hits the proportion exactly (one row in a hundred)', 'rows whose draw equals the threshold end up in neither part')

S('c11-cat-index', 'C11', 'base', [('base/categorical.go', '''	for idx, val := range Attr.values {
		if val == userVal {
			return PackU64ToBytes(uint64(idx))
		}
	}''', '''	for idx, val := range Attr.values {
		if val == userVal {
			return PackU64ToBytes(uint64(byte(idx)))
		}
	}''')],
HDR.replace('"testing"', '"fmt"\n\t"testing"') + '''func TestDemo(t *testing.T) {
	at := NewCategoricalAttribute()
	for i := 0; i < 400; i++ {
		at.GetSysValFromString(fmt.Sprint(i))
	}
	for i := 0; i < 400; i++ {
		if got := at.GetStringFromSysVal(at.GetSysVal(fmt.Sprint(i))); got != fmt.Sprint(i) {
			t.Fatalf("%d is stored as %s", i, got)
		}
	}
}
''', 'a categorical attribute with more than 256 values', 'the stored index is truncated to 8 bits by GetSysVal')

S('c11-pack-bits', 'C11', 'base', [('base/util.go', """func PackU64ToBytesInline(val uint64, ret []byte) {
	ret[7] = byte(val & (0xFF << 56) >> 56)
""", """func PackU64ToBytesInline(val uint64, ret []byte) {
	ret[7] = byte(val & (0x7F << 56) >> 56)
""")],
HDR + """func TestDemo(t *testing.T) {
	b := make([]byte, 8)
	for _, f := range []float64{0, 1, 1e300, -2.5} {
		PackFloatToBytesInline(f, b)
		if g := UnpackBytesToFloat(b); g != f {
			t.Fatalf("%v became %v", f, g)
		}
	}
}
""", 'a negative number (or an integer above 2^63) packed in place', 'the top bit is lost by the in-place packing routine')

S('c14-csv-unflushed', 'C14', 'base', [('base/serialize_instances.go', '''	if err := gzWriter.Flush(); err != nil {
		return fmt.Errorf("Could not flush gz: %s", err)
	}

	if err := gzWriter.Close(); err != nil {
		return fmt.Errorf("Could not close gz: %s", err)
	}

	return serializeErr''', '''	if err := gzWriter.Flush(); err != nil {
		return fmt.Errorf("Could not flush gz: %s", err)
	}
	defer gzWriter.Close()

	return serializeErr''')],
HDR.replace('"testing"', '"errors"\n\t"testing"') + '''type limited struct{ n, limit int }

func (l *limited) Write(p []byte) (int, error) {
	l.n += len(p)
	if l.limit > 0 && l.n > l.limit {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	d := NewDenseInstances()
	a := d.AddAttribute(NewFloatAttribute("x"))
	d.Extend(3)
	d.Set(a, 0, PackFloatToBytes(1))
	all := &limited{}
	if err := SerializeInstances(d, all); err != nil {
		t.Fatal(err)
	}
	if err := SerializeInstances(d, &limited{limit: all.n - 1}); err == nil {
		t.Fatal("truncated archive reported as success")
	}
}
''', 'a failure while the trailer of the compressed stream is written (disk full at the last bytes)', 'the error of closing the gzip layer is lost and the truncated archive reported as written')

S('c22-ova-fit', 'C22', 'meta', [('meta/one_v_all.go', '''		p, err := m.classifiers[i].Predict(c)
		if err != nil {
			return nil, err
		}
		vecs[i] = p''', '''		p, err := m.classifiers[i].Predict(c)
		if err != nil && p == nil {
			p = base.GeneratePredictionVector(c)
		}
		vecs[i] = p''')],
'''package meta

import (
	"errors"
	"testing"

	"github.com/sjwhitworth/golearn/base"
)

type failing struct {
	base.Classifier
}

func (f *failing) Fit(base.FixedDataGrid) error { return nil }
func (f *failing) Predict(base.FixedDataGrid) (base.FixedDataGrid, error) {
	return nil, errors.New("cannot predict")
}

func TestDemo(t *testing.T) {
	d := base.NewDenseInstances()
	x := base.NewFloatAttribute("x")
	c := base.NewCategoricalAttribute()
	c.SetName("c")
	xs, cs := d.AddAttribute(x), d.AddAttribute(c)
	d.AddClassAttribute(c)
	d.Extend(4)
	for i, v := range []string{"a", "b", "a", "b"} {
		d.Set(xs, i, base.PackFloatToBytes(float64(i)))
		d.Set(cs, i, c.GetSysValFromString(v))
	}
	m := NewOneVsAllModel(func(string) base.Classifier { return &failing{} })
	if err := m.Fit(d); err != nil {
		t.Fatal(err)
	}
	if p, err := m.Predict(d); err == nil {
		t.Fatalf("predictions %v although no classifier can predict", p)
	}
}
''', 'an inner classifier whose Predict fails', 'a failed inner prediction is replaced by an empty one and reported as success')
