From 5b998313e3152eb64ee2850b6ddc24d157c26b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:02 +0000
Subject: [PATCH 01/86] fix: class distribution counts every row instead of
 stopping after the first

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 2def385..ae29da7 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -146,7 +146,7 @@ func GetClassDistributionByBinaryFloatValue(inst FixedDataGrid) []int {
 			ret[0]++
 		}
 
-		return false, nil
+		return true, nil
 	})
 
 	return ret
@@ -177,7 +177,7 @@ func GetClassDistributionByCategoricalValue(inst FixedDataGrid) []int {
 	inst.MapOverRows(specs, func(vals [][]byte, row int) (bool, error) {
 		index := UnpackBytesToU64(vals[0])
 		ret[int(index)]++
-		return false, nil
+		return true, nil
 	})
 
 	return ret
-- 
2.43.0


From 61221a8683a4dacca1b2d5143de677bcb78bc151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 02/86] fix: InstancesView.MapOverRows honours the row mapping
 of unmasked views

---
 base/view.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/view.go b/base/view.go
index 99d59d8..bac6cbc 100644
--- a/base/view.go
+++ b/base/view.go
@@ -205,10 +205,11 @@ func (v *InstancesView) Get(as AttributeSpec, row int) []byte {
 // IMPORTANT: MapOverRows is not guaranteed to be ordered, but this one
 // especially so.
 func (v *InstancesView) MapOverRows(as []AttributeSpec, rowFunc func([][]byte, int) (bool, error)) error {
-	if v.maskRows {
+	if v.rows != nil {
+		_, rows := v.Size()
 		rowBuf := make([][]byte, len(as))
-		for r := range v.rows {
-			row := v.rows[r]
+		for r := 0; r < rows; r++ {
+			row := v.resolveRow(r)
 			for i, a := range as {
 				rowBuf[i] = v.src.Get(a, row)
 			}
-- 
2.43.0


From 5e45351c39fb3d6eabb152ee23f2395a8468f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:11 +0000
Subject: [PATCH 03/86] fix: InstancesView matches class Attributes by
 equality, not pointer identity

---
 base/view.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/base/view.go b/base/view.go
index bac6cbc..33a657d 100644
--- a/base/view.go
+++ b/base/view.go
@@ -162,6 +162,14 @@ func (v *InstancesView) AddClassAttribute(a Attribute) error {
 		return fmt.Errorf("Attribute has been filtered")
 	}
 
+	// Attributes are matched by equality, not identity
+	for c := range v.classAttrs {
+		if c.Equals(a) {
+			v.classAttrs[c] = true
+			return nil
+		}
+	}
+
 	v.classAttrs[a] = true
 	return nil
 }
@@ -169,7 +177,12 @@ func (v *InstancesView) AddClassAttribute(a Attribute) error {
 // RemoveClassAttribute removes the given Attribute from the set of
 // class Attributes.
 func (v *InstancesView) RemoveClassAttribute(a Attribute) error {
-	v.classAttrs[a] = false
+	// Attributes are matched by equality, not identity
+	for c := range v.classAttrs {
+		if c.Equals(a) {
+			v.classAttrs[c] = false
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From ab35b07876e76d659f86d003e09b631988faec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 04/86] fix: Mat64Instances.MapOverRows returns the callback's
 error even when told to continue

---
 base/mat.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/mat.go b/base/mat.go
index f644cf3..11f35ff 100644
--- a/base/mat.go
+++ b/base/mat.go
@@ -99,9 +99,12 @@ func (m *Mat64Instances) MapOverRows(as []AttributeSpec, f func([][]byte, int) (
 			PackFloatToBytesInline(m.Data.At(i, as.position), rowData[j])
 		}
 		stat, err := f(rowData, i)
-		if !stat {
+		if err != nil {
 			return err
 		}
+		if !stat {
+			break
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 4eac0b3d233f470377b9fe62d907058cdc0a0d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 05/86] fix: LazilyFilteredInstances.MapOverRows passes
 unfiltered Attributes through like Get

---
 base/filtered.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/filtered.go b/base/filtered.go
index 0d4f77f..cf25f59 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -186,6 +186,10 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
+			if l.unfilteredMap[asv[i].attr] {
+				newRowBuf[i] = b
+				continue
+			}
 			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
-- 
2.43.0


From 58d1b69a3fbfc523bd9f40b12af20a6c34a79190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:39 +0000
Subject: [PATCH 06/86] fix: LazilyFilteredInstances.RemoveClassAttribute
 removes every Attribute AddClassAttribute added

---
 base/filtered.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index cf25f59..76c0435 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -113,13 +113,17 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 		l.classAttrs[cls] = false
 		return nil
 	}
+	matched := false
 	for _, a := range l.attrs {
 		if a.Old.Equals(cls) || a.New.Equals(cls) {
 			l.classAttrs[a.New] = false
-			return nil
+			matched = true
 		}
 	}
-	return fmt.Errorf("Attribute %s could not be resolved", cls)
+	if !matched {
+		return fmt.Errorf("Attribute %s could not be resolved", cls)
+	}
+	return nil
 }
 
 // AllClassAttributes returns details of all Attributes currently specified
-- 
2.43.0


From ed0d0ed03eae8fd03576bbc6c41602f1feb5e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 07/86] fix: LazilyFilteredInstances.Size counts the Attributes
 it exposes

---
 base/filtered.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 76c0435..e112b11 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -222,10 +222,11 @@ func (l *LazilyFilteredInstances) RowString(row int) string {
 	return buffer.String() // Return the result
 }
 
-// Size returns the number of Attributes and rows of the underlying
-// FixedDataGrid.
+// Size returns the number of Attributes after filtering and the
+// number of rows of the underlying FixedDataGrid.
 func (l *LazilyFilteredInstances) Size() (int, int) {
-	return l.src.Size()
+	_, rows := l.src.Size()
+	return len(l.AllAttributes()), rows
 }
 
 // String returns a human-readable summary of this FixedDataGrid
-- 
2.43.0


From 4290a61d1d5d42076cc6ad992d0e13699343ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:55 +0000
Subject: [PATCH 08/86] fix: NonClassAttributes compares Attributes by
 equality, so a class Attribute never leaks into the features

---
 base/util_attributes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/util_attributes.go b/base/util_attributes.go
index e65662a..9361459 100644
--- a/base/util_attributes.go
+++ b/base/util_attributes.go
@@ -36,7 +36,7 @@ func NonClassFloatAttributes(d DataGrid) []Attribute {
 func NonClassAttributes(d DataGrid) []Attribute {
 	classAttrs := d.AllClassAttributes()
 	allAttrs := d.AllAttributes()
-	return AttributeDifferenceReferences(allAttrs, classAttrs)
+	return AttributeDifference(allAttrs, classAttrs)
 }
 
 // ResolveAttributes returns AttributeSpecs describing
-- 
2.43.0


From 08f1442aabb84036106ff3f996e7731321860d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:04 +0000
Subject: [PATCH 09/86] fix: AttributeIntersectReferences and
 AttributeDifferenceReferences return Attributes in a reproducible order

---
 base/util_attributes.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/base/util_attributes.go b/base/util_attributes.go
index 9361459..cca6cfb 100644
--- a/base/util_attributes.go
+++ b/base/util_attributes.go
@@ -100,10 +100,9 @@ func AttributeIntersect(a1, a2 []Attribute) []Attribute {
 // IMPORTANT: done using pointers for speed, use AttributeDifference
 // if the Attributes originate from different DataGrids.
 func AttributeIntersectReferences(a1, a2 []Attribute) []Attribute {
-	a1b := buildAttrSet(a1)
 	a2b := buildAttrSet(a2)
 	ret := make([]Attribute, 0)
-	for a := range a1b {
+	for _, a := range a1 {
 		if _, ok := a2b[a]; ok {
 			ret = append(ret, a)
 		}
@@ -142,10 +141,9 @@ func AttributeDifference(a1, a2 []Attribute) []Attribute {
 // IMPORTANT: done using pointers for speed, use AttributeDifference
 // if the Attributes originate from different DataGrids.
 func AttributeDifferenceReferences(a1, a2 []Attribute) []Attribute {
-	a1b := buildAttrSet(a1)
 	a2b := buildAttrSet(a2)
 	ret := make([]Attribute, 0)
-	for a := range a1b {
+	for _, a := range a1 {
 		if _, ok := a2b[a]; !ok {
 			ret = append(ret, a)
 		}
-- 
2.43.0


From 501971b406bd1863f9a93cc4feca971c1cbc3fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 10/86] fix: LazyShuffle builds a permutation, so no row is
 lost or duplicated

---
 base/util_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index ae29da7..9305a8a 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -402,7 +402,7 @@ func LazyShuffle(from FixedDataGrid) FixedDataGrid {
 	rowMap := make(map[int]int)
 	for i := 0; i < rows; i++ {
 		j := rand.Intn(i + 1)
-		rowMap[i] = j
+		rowMap[i] = rowMap[j]
 		rowMap[j] = i
 	}
 	return NewInstancesViewFromRows(from, rowMap)
-- 
2.43.0


From a2bef52a79068d9a60e3380da6a85f750b8ee231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 11/86] fix: InstancesTrainTestSplit no longer reorders the
 caller's data in place

---
 base/util_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 9305a8a..5cf6550 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -376,7 +376,7 @@ func DecomposeOnAttributeValues(inst FixedDataGrid, at Attribute) map[string]Fix
 func InstancesTrainTestSplit(src FixedDataGrid, prop float64) (FixedDataGrid, FixedDataGrid) {
 	trainingRows := make([]int, 0)
 	testingRows := make([]int, 0)
-	src = Shuffle(src)
+	src = LazyShuffle(src)
 
 	// Create the return structure
 	_, rows := src.Size()
-- 
2.43.0


From af3eb13dc5c3355f762a8e5e275d78dc651d6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:46 +0000
Subject: [PATCH 12/86] fix: CheckStrictlyCompatible compares the number of
 Attributes in each group

---
 base/util_instances.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/util_instances.go b/base/util_instances.go
index 5cf6550..8143827 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -490,6 +490,9 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 		ag2 := d2ags[a]
 		a1 := ag1.Attributes()
 		a2 := ag2.Attributes()
+		if len(a1) != len(a2) {
+			return false
+		}
 		for i := range a1 {
 			at1 := a1[i]
 			at2 := a2[i]
-- 
2.43.0


From 7fced5602c4d03f8f3c3f300da2ea576e33a08a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:54 +0000
Subject: [PATCH 13/86] fix: AddAttributeToAttributeGroup refuses to change the
 layout of allocated storage

---
 base/dense.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/dense.go b/base/dense.go
index d3a87df..05c0f46 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -237,6 +237,10 @@ func (inst *DenseInstances) AddAttributeToAttributeGroup(newAttribute Attribute,
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
+	if inst.fixed {
+		return AttributeSpec{-1, 0, nil}, fmt.Errorf("Can't add additional Attributes")
+	}
+
 	// Check if the ag exists
 	if _, ok := inst.agMap[ag]; !ok {
 		return AttributeSpec{-1, 0, nil}, fmt.Errorf("AttributeGroup '%s' doesn't exist. Call CreateAttributeGroup() first", ag)
-- 
2.43.0


From cef4c363fd6a60cf5557937602bc8f1216cf2982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 14/86] fix: AllAttributeGroups takes the lock while reading
 the group table

---
 base/dense.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/dense.go b/base/dense.go
index 05c0f46..3864c40 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -155,6 +155,9 @@ func (inst *DenseInstances) CreateAttributeGroup(name string, size int) (err err
 
 // AllAttributeGroups returns a copy of the available AttributeGroups
 func (inst *DenseInstances) AllAttributeGroups() map[string]AttributeGroup {
+	inst.lock.Lock()
+	defer inst.lock.Unlock()
+
 	ret := make(map[string]AttributeGroup)
 	for a := range inst.agMap {
 		ret[a] = inst.ags[inst.agMap[a]]
-- 
2.43.0


From a1256807dffeafb7c394d80715ba147a38687c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 15/86] fix: SerializeInstancesToCSVStream reports write errors

---
 base/serialize_instances.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 7239776..6e3dd0a 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -60,21 +60,28 @@ func SerializeInstancesToCSVStream(inst FixedDataGrid, f io.Writer) error {
 	for i, v := range allAttrs {
 		headerRow[i] = v.GetName()
 	}
-	w.Write(headerRow)
+	if err := w.Write(headerRow); err != nil {
+		return err
+	}
 
 	specs := ResolveAttributes(inst, allAttrs)
 	curRow := make([]string, colCount)
-	inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
+	err := inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
 		for i, v := range row {
 			attr := allAttrs[i]
 			curRow[i] = attr.GetStringFromSysVal(v)
 		}
-		w.Write(curRow)
+		if err := w.Write(curRow); err != nil {
+			return false, err
+		}
 		return true, nil
 	})
+	if err != nil {
+		return err
+	}
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
 
 // DeserializeInstancesFromTarReader returns DenseInstances from a FunctionalTarReader with the name prefix.
-- 
2.43.0


From af00f42ae8e38fc926b4cc5ef211f72bfee7d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 16/86] fix: the ARFF writer reports write errors

---
 base/arff.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 996201b..4740dd9 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -43,7 +43,9 @@ func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []
 
 func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
 	// Write @relation header
-	fmt.Fprintf(w, "@relation %s\n\n", relation)
+	if _, err := fmt.Fprintf(w, "@relation %s\n\n", relation); err != nil {
+		return err
+	}
 
 	// Get all Attribute specifications
 	attrs := ResolveAttributes(inst, rawAttrs)
@@ -56,21 +58,24 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 			vals := a.GetValues()
 			t = fmt.Sprintf("{%s}", strings.Join(vals, ", "))
 		}
-		fmt.Fprintf(w, "@attribute %s %s\n", attr.GetName(), t)
+		if _, err := fmt.Fprintf(w, "@attribute %s %s\n", attr.GetName(), t); err != nil {
+			return err
+		}
+	}
+	if _, err := fmt.Fprint(w, "\n@data\n"); err != nil {
+		return err
 	}
-	fmt.Fprint(w, "\n@data\n")
 
 	buf := make([]string, len(attrs))
-	inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
+	return inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
 		for i, v := range val {
 			buf[i] = attrs[i].attr.GetStringFromSysVal(v)
 		}
-		fmt.Fprint(w, strings.Join(buf, ","))
-		fmt.Fprint(w, "\n")
+		if _, err := fmt.Fprintf(w, "%s\n", strings.Join(buf, ",")); err != nil {
+			return false, err
+		}
 		return true, nil
 	})
-
-	return nil
 }
 
 // ParseARFFGetRows returns the number of data rows in an ARFF file.
-- 
2.43.0


From 9c2fc5a058c9cfd5ff3a6ea2920907186821ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:22 +0000
Subject: [PATCH 17/86] fix: WriteBytesForKey reports flush and sync errors

---
 base/serialize.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/base/serialize.go b/base/serialize.go
index 5cf7ebe..5c1d038 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -308,9 +308,15 @@ func (c *ClassifierSerializer) WriteBytesForKey(key string, b []byte) error {
 		return fmt.Errorf("Could not write data for '%s': %s", key, err)
 	}
 
-	c.tarWriter.Flush()
-	c.gzipWriter.Flush()
-	c.fileWriter.Sync()
+	if err := c.tarWriter.Flush(); err != nil {
+		return fmt.Errorf("Could not flush tar for '%s': %s", key, err)
+	}
+	if err := c.gzipWriter.Flush(); err != nil {
+		return fmt.Errorf("Could not flush gz for '%s': %s", key, err)
+	}
+	if err := c.fileWriter.Sync(); err != nil {
+		return fmt.Errorf("Could not sync file for '%s': %s", key, err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 28d89e41b46267fab19337ca579d7c441fec315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 18/86] fix: SerializeInstancesToTarWriter reports flush and
 traversal errors

---
 base/serialize_instances.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 6e3dd0a..f804862 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -273,7 +273,9 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 	if _, err := tw.Write([]byte(SerializationFormatVersion)); err != nil {
 		return fmt.Errorf("Could not write MANIFEST contents: %s", err)
 	}
-	tw.Flush()
+	if err := tw.Flush(); err != nil {
+		return fmt.Errorf("Could not flush MANIFEST: %s", err)
+	}
 
 	// Now write the dimensions of the dataset
 	attrCount, rowCount := inst.Size()
@@ -316,12 +318,14 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 
 	// First, estimate the amount of data we'll need...
 	dataLength := int64(0)
-	inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
+	if err := inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
 		for _, v := range val {
 			dataLength += int64(len(v))
 		}
 		return true, nil
-	})
+	}); err != nil {
+		return err
+	}
 
 	// Then write the header
 	hdr = &tar.Header{
@@ -331,7 +335,6 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 	if err := tw.WriteHeader(hdr); err != nil {
 		return fmt.Errorf("Could not write DATA: %s", err)
 	}
-	tw.Flush()
 
 	if !includeData {
 		return nil
@@ -356,7 +359,9 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 		return fmt.Errorf("Could not write DATA: changed size from %v to %v", dataLength, writtenLength)
 	}
 
-	tw.Flush()
+	if err := tw.Flush(); err != nil {
+		return fmt.Errorf("Could not flush DATA: %s", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From 52d1b4d7f23ad2f8487e50e57903649c73dccf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:31 +0000
Subject: [PATCH 19/86] fix: DeserializeInstancesFromTarReader reads whole
 values, tolerating short reads

---
 base/serialize_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index f804862..9d0f919 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -173,7 +173,7 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 	for i := 0; i < rowCount; i++ {
 		for j, s := range specs {
 			r := ret.Get(s, i)
-			n, err := reader.Read(r)
+			n, err := io.ReadFull(reader, r)
 			if n != len(r) {
 				return nil, WrapError(fmt.Errorf("Expected %d bytes (read %d) on row %d", len(r), n, i))
 			}
-- 
2.43.0


From 20deb697e8129aefa632aec635be4f260ceb6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 20/86] fix: DeserializeInstancesFromTarReader rejects an
 archive whose Attribute count disagrees with its Attributes

---
 base/serialize_instances.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 9d0f919..c0ad721 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -129,6 +129,10 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		return nil, DescribeError("Unable to deserialize normal attributes", err)
 	}
 
+	if len(normalAttrs)+len(cAttrs) != attrCount {
+		return nil, WrapError(fmt.Errorf("DIMS: expected %d Attribute(s), got %d", attrCount, len(normalAttrs)+len(cAttrs)))
+	}
+
 	// Create the return instances
 	ret = NewDenseInstances()
 
-- 
2.43.0


From 6231500e6a05b26575e89ef276c5aac2dcb2d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:48 +0000
Subject: [PATCH 21/86] fix: dataset writers create and truncate their output,
 close it on every path and report the close error

---
 base/arff.go                | 11 +++++++----
 base/serialize_instances.go | 24 +++++++++++++++---------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 4740dd9..f57d1a6 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -31,13 +31,16 @@ func SerializeInstancesToDenseARFF(inst FixedDataGrid, path, relation string) er
 func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []Attribute, path, relation string) error {
 
 	// Open output file
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-
-	return SerializeInstancesToWriterDenseARFFWithAttributes(f, inst, rawAttrs, relation)
+	err = SerializeInstancesToWriterDenseARFFWithAttributes(f, inst, rawAttrs, relation)
+	if err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
 
 }
 
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index c0ad721..b79a225 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -12,34 +12,40 @@ import (
 )
 
 func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
 	err = SerializeInstances(inst, f)
 	if err != nil {
+		f.Close()
 		return err
 	}
 	err = f.Sync()
 	if err != nil {
+		f.Close()
 		return fmt.Errorf("Couldn't flush file: %s", err)
 	}
-	f.Close()
-	return nil
+	return f.Close()
 }
 
 // SerializesInstancesToCSV converts a FixedDataGrid into a CSV file format.
 func SerializeInstancesToCSV(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	defer func() {
-		f.Sync()
+	err = SerializeInstancesToCSVStream(inst, f)
+	if err != nil {
 		f.Close()
-	}()
-
-	return SerializeInstancesToCSVStream(inst, f)
+		return err
+	}
+	err = f.Sync()
+	if err != nil {
+		f.Close()
+		return fmt.Errorf("Couldn't flush file: %s", err)
+	}
+	return f.Close()
 }
 
 // SerializeInstancesToCSVStream outputs a FixedDataGrid into a CSV file format, via the io.Writer stream.
-- 
2.43.0


From ea5d93b1b0d09322c8073c8c340f9df19558a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 22/86] fix: opening or creating a classifier archive closes
 the file on every error path

---
 base/serialize.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index 5c1d038..5d9d9a9 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -125,6 +125,7 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 
 	gzr, err := gzip.NewReader(f)
 	if err != nil {
+		f.Close()
 		return nil, DescribeError("Can't decompress", err)
 	}
 
@@ -141,9 +142,11 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 	// Retrieve the MANIFEST and verify
 	manifestBytes, err := tz.GetNamedFile("CLS_MANIFEST")
 	if err != nil {
+		f.Close()
 		return nil, DescribeError("Error reading CLS_MANIFEST", err)
 	}
 	if !reflect.DeepEqual(manifestBytes, []byte(SerializationFormatVersion)) {
+		f.Close()
 		return nil, fmt.Errorf("Unsupported CLS_MANIFEST: %s", string(manifestBytes))
 	}
 
@@ -160,12 +163,14 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 
 	metadata, err = ret.ReadMetadataAtPrefix("")
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("Error whilst reading METADATA: %s", err)
 	}
 	ret.Metadata = &metadata
 
 	// Check that we can understand this archive
 	if metadata.FormatVersion != 1 {
+		f.Close()
 		return nil, fmt.Errorf("METADATA: wrong format_version for this version of golearn")
 	}
 
@@ -412,10 +417,12 @@ func CreateSerializedClassifierStub(filePath string, metadata ClassifierMetadata
 		Size: int64(len(SerializationFormatVersion)),
 	}
 	if err := tw.WriteHeader(hdr); err != nil {
+		f.Close()
 		return nil, fmt.Errorf("Could not write CLS_MANIFEST header: %s", err)
 	}
 
 	if _, err := tw.Write([]byte(SerializationFormatVersion)); err != nil {
+		f.Close()
 		return nil, fmt.Errorf("Could not write CLS_MANIFEST contents: %s", err)
 	}
 
@@ -424,6 +431,7 @@ func CreateSerializedClassifierStub(filePath string, metadata ClassifierMetadata
 	//
 	err = ret.WriteMetadataAtPrefix("", metadata)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("JSON marshal error: %s", err)
 	}
 
-- 
2.43.0


From 01f4d2d9f2630220713a5f30127d7957bdd14b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 23/86] fix: a GoLearnError without a description prints the
 wrapped error only

---
 base/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/error.go b/base/error.go
index c962670..c4bcbf7 100644
--- a/base/error.go
+++ b/base/error.go
@@ -30,7 +30,7 @@ func (g *GoLearnError) Error() string {
 	}
 
 	if g.Description == "" {
-		fmt.Sprintf("%s", g.WrappedError)
+		return fmt.Sprintf("%s", g.WrappedError)
 	}
 	return fmt.Sprintf("GoLearnError( %s: %s )", g.Description, g.WrappedError)
 }
-- 
2.43.0


From f9051aa15550022a7634261675485bbd7f3838d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 24/86] fix: parser recover handlers re-panic the recovered
 value and accept non-error panics

---
 base/arff.go                | 9 ++++++---
 base/csv.go                 | 4 ++--
 base/serialize_instances.go | 5 ++++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index f57d1a6..43a0f20 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -210,9 +210,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-				panic(err)
+				panic(r)
 			}
-			err = fmt.Errorf("Error at line %d (error %s)", rowCounter, r.(error))
+			err = fmt.Errorf("Error at line %d (error %v)", rowCounter, r)
 		}
 	}()
 
@@ -264,7 +264,10 @@ func ParseDenseARFFToInstances(filepath string) (ret *DenseInstances, err error)
 			if _, ok := r.(runtime.Error); ok {
 				panic(r)
 			}
-			err = r.(error)
+			var ok bool
+			if err, ok = r.(error); !ok {
+				err = fmt.Errorf("%v", r)
+			}
 		}
 	}()
 
diff --git a/base/csv.go b/base/csv.go
index 93bb63d..7058fc7 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -162,9 +162,9 @@ func ParseCSVBuildInstancesFromReader(r io.ReadSeeker, attrs []Attribute, hasHea
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-				panic(err)
+				panic(r)
 			}
-			err = fmt.Errorf("error at line %d (error %s)", rowCounter, r.(error))
+			err = fmt.Errorf("error at line %d (error %v)", rowCounter, r)
 		}
 	}()
 
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index b79a225..c8f76d9 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -209,7 +209,10 @@ func DeserializeInstances(f io.ReadSeeker) (ret *DenseInstances, err error) {
 			if _, ok := r.(runtime.Error); ok {
 				panic(r)
 			}
-			err = r.(error)
+			var ok bool
+			if err, ok = r.(error); !ok {
+				err = fmt.Errorf("%v", r)
+			}
 		}
 	}()
 
-- 
2.43.0


From 98217d251855c5ce968da706b34e6c5d7916448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 25/86] fix: parsing empty or malformed CSV returns an error
 instead of panicking

---
 base/csv.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 7058fc7..758fa70 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -200,9 +200,23 @@ func ParseCSVBuildInstancesFromReader(r io.ReadSeeker, attrs []Attribute, hasHea
 	return nil
 }
 
+// recoverParseError turns a panic raised by the helpers on malformed input into
+// an error. It must be deferred directly. Runtime errors are re-raised.
+func recoverParseError(instances **DenseInstances, err *error) {
+	if r := recover(); r != nil {
+		if _, ok := r.(runtime.Error); ok {
+			panic(r)
+		}
+		*instances = nil
+		*err = fmt.Errorf("error parsing CSV (error %v)", r)
+	}
+}
+
 // ParseCSVToInstancesFromReader reads the reader containing CSV and returns
 // the read Instances.
 func ParseCSVToInstancesFromReader(r io.ReadSeeker, hasHeaders bool) (instances *DenseInstances, err error) {
+	defer recoverParseError(&instances, &err)
+
 	// Read the number of rows in the file
 	rowCount, err := ParseCSVGetRowsFromReader(r)
 	if err != nil {
@@ -251,6 +265,8 @@ func ParseMatchAttributes(attrs, templateAttrs []Attribute) {
 // ParseCSVToTemplatedInstancesFromReader reads the reader containing CSV and returns
 // the read Instances, using another already read DenseInstances as a template.
 func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, template *DenseInstances) (instances *DenseInstances, err error) {
+	defer recoverParseError(&instances, &err)
+
 	// Read the number of rows in the file
 	rowCount, err := ParseCSVGetRowsFromReader(r)
 	if err != nil {
@@ -289,6 +305,8 @@ func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, te
 // and returns the read DenseInstances, but also makes sure to group any Attributes
 // specified in the first argument and also any class Attributes specified in the second
 func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroups, classAttrGroups map[string]string, attrOverrides map[int]Attribute, hasHeaders bool) (instances *DenseInstances, err error) {
+	defer recoverParseError(&instances, &err)
+
 	// Read row count
 	rowCount, err := ParseCSVGetRowsFromReader(r)
 	if err != nil {
-- 
2.43.0


From 7bff2d96226aefc9bdb04d91b8b5393b3ebccdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:53 +0000
Subject: [PATCH 26/86] fix: ARFF scanners report read errors, and an ARFF file
 without Attributes is an error

---
 base/arff.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/base/arff.go b/base/arff.go
index 43a0f20..da8a9ee 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -110,11 +110,15 @@ func ParseARFFGetRows(filepath string) (int, error) {
 		}
 		if line[0] == '@' {
 			line = strings.ToLower(line)
+			line = strings.TrimSpace(line)
 			if line == "@data" {
 				counting = true
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return 0, err
+	}
 	return count, nil
 }
 
@@ -190,6 +194,9 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		attr.SetName(fields[1])
 		ret = append(ret, attr)
 	}
+	if err := scanner.Err(); err != nil {
+		panic(err)
+	}
 
 	maxPrecision, err := ParseCSVEstimateFilePrecision(filepath)
 	if err != nil {
@@ -254,7 +261,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 // ParseDenseARFFToInstances parses the dense ARFF File into a FixedDataGrid
@@ -279,6 +286,9 @@ func ParseDenseARFFToInstances(filepath string) (ret *DenseInstances, err error)
 
 	// Get the Attributes we want
 	attrs := ParseARFFGetAttributes(filepath)
+	if len(attrs) == 0 {
+		return nil, fmt.Errorf("No Attributes found in %s", filepath)
+	}
 
 	// Allocate return value
 	ret = NewDenseInstances()
-- 
2.43.0


From a7431337c3d29b3d565aee40ca4aca1308b9c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 27/86] fix: KNN Predict reports a failed neighbour search
 instead of returning partial predictions

---
 knn/knn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index 0ce44fa..50637fc 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -192,7 +192,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Iterate over all outer rows
-	what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
+	err := what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
 
 		if (curRow%1) == 0 && curRow > 0 {
 			fmt.Printf("KNN: %.2f %% done\r", float64(curRow)*100.0/float64(maxRow))
@@ -261,6 +261,9 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return true, nil
 
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
-- 
2.43.0


From 9015f0ea0f86ee2bed5311311821ce2f27a234c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:08 +0000
Subject: [PATCH 28/86] fix: weighted KNN is not replaced by the unweighted
 optimised search

---
 knn/knn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index 50637fc..01954e5 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -126,7 +126,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Use optimised version if permitted
-	if KNN.Algorithm == "linear" && KNN.AllowOptimisations {
+	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
 			if KNN.canUseOptimisations(what) {
 				return KNN.optimisedEuclideanPredict(what.(*base.DenseInstances)), nil
-- 
2.43.0


From 243f9deb4458af1c7840cad249c398b11e361f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:12 +0000
Subject: [PATCH 29/86] fix: KNN SaveWithPrefix leaves the caller's archive
 open; Load closes its file

---
 knn/knn.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 01954e5..ed4be9d 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -352,18 +352,16 @@ func (KNN *KNNClassifier) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return KNN.SaveWithPrefix(writer, "")
+	err = KNN.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SaveWithPrefix outputs KNN as part of another file.
 func (KNN *KNNClassifier) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-	err := writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
-	if err != nil {
-		return err
-	}
-	err = writer.Close()
-	return err
+	return writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
 }
 
 // Load reloads a given KNN classifier when it's the only thing in the output file.
@@ -373,6 +371,7 @@ func (KNN *KNNClassifier) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
 	return KNN.LoadWithPrefix(reader, "")
 }
 
-- 
2.43.0


From c3c538d7390a3de4570d5cb47fdb5f6c37d71768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:16 +0000
Subject: [PATCH 30/86] fix: loading a KNN archive with malformed parameters
 returns an error instead of panicking

---
 knn/knn.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index ed4be9d..e9c9ff2 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -391,14 +391,19 @@ func (KNN *KNNClassifier) LoadWithPrefix(reader *base.ClassifierDeserializer, pr
 	}
 
 	metadata := clsMetadata.ClassifierMetadata
-	KNN.DistanceFunc = metadata["distance_func"].(string)
-	KNN.Algorithm = metadata["algorithm"].(string)
-	//KNN.NearestNeighbours = metadata["neighbours"].(int)
-	KNN.Weighted = metadata["weighted"].(bool)
-	KNN.AllowOptimisations = metadata["allow_optimizations"].(bool)
-
+	distanceFunc, ok1 := metadata["distance_func"].(string)
+	algorithm, ok2 := metadata["algorithm"].(string)
+	weighted, ok3 := metadata["weighted"].(bool)
+	allowOptimisations, ok4 := metadata["allow_optimizations"].(bool)
 	// 101 on why JSON is a bad serialization format
-	floatNeighbours := metadata["neighbours"].(float64)
+	floatNeighbours, ok5 := metadata["neighbours"].(float64)
+	if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 {
+		return fmt.Errorf("This file contains malformed KNN parameters")
+	}
+	KNN.DistanceFunc = distanceFunc
+	KNN.Algorithm = algorithm
+	KNN.Weighted = weighted
+	KNN.AllowOptimisations = allowOptimisations
 	KNN.NearestNeighbours = int(floatNeighbours)
 
 	KNN.TrainingData, err = reader.GetInstancesForKey(reader.Prefix(prefix, "TrainingInstances"))
-- 
2.43.0


From d9474519510f9291f4295417e92daf95319bc534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:21 +0000
Subject: [PATCH 31/86] fix: KNN neighbour and vote ties, and bagging vote
 ties, no longer depend on map iteration order

---
 knn/knn.go             | 4 ++--
 meta/bagging.go        | 2 +-
 utilities/utilities.go | 4 +++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index e9c9ff2..a4d782f 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -292,7 +292,7 @@ func (KNN *KNNClassifier) vote(maxmap map[string]int, values []int) string {
 	var maxClass string
 	maxVal := -1
 	for a := range maxmap {
-		if maxmap[a] > maxVal {
+		if maxmap[a] > maxVal || (maxmap[a] == maxVal && a < maxClass) {
 			maxVal = maxmap[a]
 			maxClass = a
 		}
@@ -320,7 +320,7 @@ func (KNN *KNNClassifier) weightedVote(maxmap map[string]float64, values []int,
 	var maxClass string
 	maxVal := -1.0
 	for a := range maxmap {
-		if maxmap[a] > maxVal {
+		if maxmap[a] > maxVal || (maxmap[a] == maxVal && a < maxClass) {
 			maxVal = maxmap[a]
 			maxClass = a
 		}
diff --git a/meta/bagging.go b/meta/bagging.go
index f509463..9d8d788 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -169,7 +169,7 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 		// Find the most popular class
 		for c := range voting[i] {
 			votes := voting[i][c]
-			if votes > maxCount {
+			if votes > maxCount || (votes == maxCount && c < maxClass) {
 				maxClass = c
 				maxCount = votes
 			}
diff --git a/utilities/utilities.go b/utilities/utilities.go
index d2a9c35..c902f12 100644
--- a/utilities/utilities.go
+++ b/utilities/utilities.go
@@ -17,7 +17,9 @@ func (sm *sortedIntMap) Len() int {
 }
 
 func (sm *sortedIntMap) Less(i, j int) bool {
-	return sm.m[sm.s[i]] < sm.m[sm.s[j]]
+	a, b := sm.m[sm.s[i]], sm.m[sm.s[j]]
+	// Break ties on the key, as map iteration order is random
+	return a < b || (a == b && sm.s[i] < sm.s[j])
 }
 
 func (sm *sortedIntMap) Swap(i, j int) {
-- 
2.43.0


From ca3ea9b80dde0b9d5f1988dcea30abd0c122de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 32/86] fix: tree Save finalises the archive and reports Close
 errors, Load closes its reader

---
 trees/id3.go    | 10 ++++++++--
 trees/random.go |  8 +++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 8574d48..c74e21b 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -129,6 +129,7 @@ func (d *DecisionTreeNode) Save(filePath string) error {
 	}
 	err = d.SaveWithPrefix(serializer, "")
 	if err != nil {
+		serializer.Close()
 		return err
 	}
 	return serializer.Close()
@@ -159,6 +160,7 @@ func (d *DecisionTreeNode) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 
 	return d.LoadWithPrefix(reader, "")
 }
@@ -570,8 +572,11 @@ func (t *ID3DecisionTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return t.SaveWithPrefix(writer, "")
+	if err := t.SaveWithPrefix(writer, ""); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (t *ID3DecisionTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -583,6 +588,7 @@ func (t *ID3DecisionTree) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 	return t.LoadWithPrefix(reader, "")
 }
 
diff --git a/trees/random.go b/trees/random.go
index c5b44ed..5f0f985 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -95,10 +95,11 @@ func (rt *RandomTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
+	if err := rt.SaveWithPrefix(writer, ""); err != nil {
 		writer.Close()
-	}()
-	return rt.SaveWithPrefix(writer, "")
+		return err
+	}
+	return writer.Close()
 }
 
 // SaveWithPrefix outputs this model to a file with a prefix.
@@ -112,6 +113,7 @@ func (rt *RandomTree) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 	return rt.LoadWithPrefix(reader, "")
 }
 
-- 
2.43.0


From 49f942366bc2aa8aa649c83e6819b093644f1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 33/86] fix: saved models carry their own classifier name, not
 KNN's

---
 ensemble/randomforest.go | 2 +-
 naive/bernoulli_nb.go    | 2 +-
 trees/id3.go             | 2 +-
 trees/random.go          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 0d9492a..d2688d5 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -65,7 +65,7 @@ func (f *RandomForest) String() string {
 func (f *RandomForest) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "RandomForest",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 767a90a..466c4f2 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -63,7 +63,7 @@ func (nb *BernoulliNBClassifier) String() string {
 func (nb *BernoulliNBClassifier) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "BernoulliNB",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
diff --git a/trees/id3.go b/trees/id3.go
index c74e21b..4930f0c 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -120,7 +120,7 @@ func getClassAttr(from base.FixedDataGrid) base.Attribute {
 func (d *DecisionTreeNode) Save(filePath string) error {
 	metadata := base.ClassifierMetadataV1{
 		FormatVersion:     1,
-		ClassifierName:    "test",
+		ClassifierName:    "DecisionTreeNode",
 		ClassifierVersion: "1",
 	}
 	serializer, err := base.CreateSerializedClassifierStub(filePath, metadata)
diff --git a/trees/random.go b/trees/random.go
index 5f0f985..b6cbe84 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -127,7 +127,7 @@ func (rt *RandomTree) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 func (rt *RandomTree) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "RandomTree",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
-- 
2.43.0


From 5865008d67f3c046f84efc848c23de75880f6c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 34/86] fix: decision tree predictions do not depend on map
 iteration order

---
 trees/id3.go | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 4930f0c..f8c56cd 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -216,7 +216,7 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 	maxVal := 0
 	maxClass := ""
 	for i := range classes {
-		if classes[i] > maxVal {
+		if classes[i] > maxVal || (classes[i] == maxVal && i < maxClass) {
 			maxClass = i
 			maxVal = classes[i]
 		}
@@ -354,6 +354,25 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 	}
 }
 
+// nearestChild returns the child to follow for a value that was never seen
+// during training: the first one, in order of its value, that comes after
+// the unseen value, or the last one if there is none.
+func (d *DecisionTreeNode) nearestChild(value string) *DecisionTreeNode {
+	keys := make([]string, 0, len(d.Children))
+	for c := range d.Children {
+		keys = append(keys, c)
+	}
+	sort.Strings(keys)
+	bestChild := ""
+	for _, c := range keys {
+		bestChild = c
+		if c > value {
+			break
+		}
+	}
+	return d.Children[bestChild]
+}
+
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
 	predictions := base.GeneratePredictionVector(what)
@@ -396,15 +415,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 				if next, ok := cur.Children[classVar]; ok {
 					cur = next
 				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.nearestChild(classVar)
 				}
 			}
 		}
@@ -427,7 +438,10 @@ func (o ClassesProba) Swap(i, j int) {
 	o[i], o[j] = o[j], o[i]
 }
 func (o ClassesProba) Less(i, j int) bool {
-	return o[i].Probability > o[j].Probability
+	if o[i].Probability != o[j].Probability {
+		return o[i].Probability > o[j].Probability
+	}
+	return o[i].ClassValue < o[j].ClassValue
 }
 
 // Predict class probabilities of the input samples what, returns a sorted array (by probability) of classes, and another array representing it's probabilities
@@ -482,15 +496,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 				if next, ok := cur.Children[classVar]; ok {
 					cur = next
 				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.nearestChild(classVar)
 				}
 			}
 		}
-- 
2.43.0


From d3f9ca5817caca10daa966791e31fd9f67d4bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 35/86] fix: split criteria sum in a fixed order, and Gini
 impurity uses class probabilities

---
 trees/entropy.go | 32 +++++++++++++++++++++++++++-----
 trees/gini.go    | 27 ++++++++++++++-------------
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index faa6613..fd6e629 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -195,12 +195,13 @@ func getSplitEntropy(s map[string]map[string]int) float64 {
 			count += s[a][c]
 		}
 	}
-	for a := range s {
-		total := 0.0
+	for _, a := range sortedSplitKeys(s) {
+		totalCount := 0
 		for c := range s[a] {
-			total += float64(s[a][c])
+			totalCount += s[a][c]
 		}
-		for c := range s[a] {
+		total := float64(totalCount)
+		for _, c := range sortedClassKeys(s[a]) {
 			ret -= float64(s[a][c]) / float64(count) * math.Log(float64(s[a][c])/float64(count)) / math.Log(2)
 		}
 		ret += total / float64(count) * math.Log(total/float64(count)) / math.Log(2)
@@ -216,8 +217,29 @@ func getBaseEntropy(s map[string]int) float64 {
 	for k := range s {
 		count += s[k]
 	}
-	for k := range s {
+	for _, k := range sortedClassKeys(s) {
 		ret -= float64(s[k]) / float64(count) * math.Log(float64(s[k])/float64(count)) / math.Log(2)
 	}
 	return ret
 }
+
+// sortedClassKeys returns the keys of a class distribution in ascending order,
+// so that floating-point sums over it do not depend on map iteration order.
+func sortedClassKeys(s map[string]int) []string {
+	keys := make([]string, 0, len(s))
+	for k := range s {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
+// sortedSplitKeys is sortedClassKeys for the distributions after a split.
+func sortedSplitKeys(s map[string]map[string]int) []string {
+	keys := make([]string, 0, len(s))
+	for k := range s {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
diff --git a/trees/gini.go b/trees/gini.go
index 23b1569..9307b29 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -70,18 +70,19 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 
 // computeGini computes the Gini impurity measure
 func computeGini(s map[string]int) float64 {
-	// Compute probability map
-	p := make(map[string]float64)
+	// Count everything in this distribution
+	total := 0
 	for i := range s {
-		if p[i] == 0 {
-			continue
-		}
-		p[i] = 1.0 / float64(p[i])
+		total += s[i]
 	}
-	// Compute overall sum
+	if total == 0 {
+		return 1.0
+	}
+	// Compute overall sum of the squared probabilities
 	sum := 0.0
-	for i := range p {
-		sum += p[i] * p[i]
+	for _, i := range sortedClassKeys(s) {
+		p := float64(s[i]) / float64(total)
+		sum += p * p
 	}
 
 	return 1.0 - sum
@@ -100,12 +101,12 @@ func computeAverageGiniIndex(s map[string]map[string]int) float64 {
 	}
 
 	sum := 0.0
-	for i := range s {
-		subtotal := 0.0
+	for _, i := range sortedSplitKeys(s) {
+		subtotal := 0
 		for j := range s[i] {
-			subtotal += float64(s[i][j])
+			subtotal += s[i][j]
 		}
-		cf := subtotal / float64(total)
+		cf := float64(subtotal) / float64(total)
 		cf *= computeGini(s[i])
 		sum += cf
 	}
-- 
2.43.0


From 72094724230863acaacdb6bc8508b604242e4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 36/86] fix: Bernoulli naive Bayes Save reports Close errors
 and Load closes its reader

---
 naive/bernoulli_nb.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 466c4f2..0f9951a 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -74,9 +74,11 @@ func (nb *BernoulliNBClassifier) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	err = nb.SaveWithPrefix(writer, "")
-	writer.Close()
-	return err
+	if err := nb.SaveWithPrefix(writer, ""); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (nb *BernoulliNBClassifier) Load(filePath string) error {
@@ -84,6 +86,7 @@ func (nb *BernoulliNBClassifier) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 
 	return nb.LoadWithPrefix(reader, "")
 }
-- 
2.43.0


From b7428b2cb4642f39bb3b4aa8f54253498fe0ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 37/86] fix: Bernoulli naive Bayes: re-Fit forgets old
 probabilities, classes without features, errors and ties

---
 naive/bernoulli_nb.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 0f9951a..22b2a5d 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -215,13 +215,16 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 	// Number of instances in class
 	nb.classInstances = make(map[string]int)
 
+	// Forget any probabilities learnt from an earlier training set
+	nb.condProb = make(map[string][]float64)
+
 	// Number of documents with given term (by class)
 	docsContainingTerm := make(map[string][]int)
 
 	// This algorithm could be vectorized after binarizing the data
 	// matrix. Since mat doesn't have this function, a iterative
 	// version is used.
-	X.MapOverRows(featAttrSpecs, func(docVector [][]byte, r int) (bool, error) {
+	err := X.MapOverRows(featAttrSpecs, func(docVector [][]byte, r int) (bool, error) {
 		class := base.GetClass(X, r)
 
 		// increment number of instances in class
@@ -230,6 +233,9 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 			t = 0
 		}
 		nb.classInstances[class] = t + 1
+		if _, ok := docsContainingTerm[class]; !ok {
+			docsContainingTerm[class] = make([]int, nb.features)
+		}
 
 		for feat := 0; feat < len(docVector); feat++ {
 			v := docVector[feat]
@@ -239,16 +245,14 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 			if v[0] > 0 {
 				// Update number of times this feature appeared within
 				// given label.
-				t, ok := docsContainingTerm[class]
-				if !ok {
-					t = make([]int, nb.features)
-					docsContainingTerm[class] = t
-				}
-				t[feat] += 1
+				docsContainingTerm[class][feat] += 1
 			}
 		}
 		return true, nil
 	})
+	if err != nil {
+		return err
+	}
 
 	// Pre-calculate conditional probabilities for each class
 	for c, _ := range nb.classInstances {
@@ -308,7 +312,9 @@ func (nb *BernoulliNBClassifier) PredictOne(vector [][]byte) string {
 			}
 		}
 
-		if classScore > bestScore {
+		// Ties are broken in favour of the first class by name, so that the
+		// prediction does not depend on map iteration order.
+		if classScore > bestScore || (classScore == bestScore && class < bestClass) {
 			bestScore = classScore
 			bestClass = class
 		}
@@ -328,10 +334,13 @@ func (nb *BernoulliNBClassifier) Predict(what base.FixedDataGrid) (base.FixedDat
 	// Get the features
 	featAttrSpecs := base.ResolveAttributes(what, nb.attrs)
 
-	what.MapOverRows(featAttrSpecs, func(row [][]byte, i int) (bool, error) {
+	err := what.MapOverRows(featAttrSpecs, func(row [][]byte, i int) (bool, error) {
 		base.SetClass(ret, i, nb.PredictOne(row))
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
-- 
2.43.0


From 9a699a98a2a470c5b7bfe4475a731c37f6f8f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:15 +0000
Subject: [PATCH 38/86] fix: liblinear prediction keeps negative features, as
 training does

---
 linear_models/liblinear.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index 47e7456..c337727 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -90,7 +90,7 @@ func Predict(model *Model, x []float64) float64 {
 func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	n_ele := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0.0 {
 			n_ele++
 		}
 	}
@@ -99,7 +99,7 @@ func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	c_x := make([]C.struct_feature_node, n_ele)
 	j := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0.0 {
 			c_x[j].index = C.int(i + 1)
 			c_x[j].value = C.double(x[i])
 			j++
-- 
2.43.0


From 24c33d7e3f1ed205d8533444969a26f33d1a59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 39/86] fix: LinearSVC Save/Load report write errors, restore
 the parameters and remove temporary files

---
 linear_models/linearsvc.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 6166198..f847c02 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -241,11 +241,11 @@ func (lr *LinearSVC) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
+	if err := lr.SaveWithPrefix(writer, ""); err != nil {
 		writer.Close()
-	}()
-	fmt.Printf("writer: %v", writer)
-	return lr.SaveWithPrefix(writer, "")
+		return err
+	}
+	return writer.Close()
 }
 
 func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -266,6 +266,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
 	err = Export(lr.model, f.Name())
@@ -273,7 +274,9 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 		return base.DescribeError("Error exporting model", err)
 	}
 
-	f.Seek(0, os.SEEK_SET)
+	if _, err := f.Seek(0, os.SEEK_SET); err != nil {
+		return base.DescribeError("Error reading model in again", err)
+	}
 	bytes, err := ioutil.ReadAll(f)
 	if err != nil {
 		return base.DescribeError("Error reading model in again", err)
@@ -283,7 +286,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	if err != nil {
 		return base.DescribeError("Error writing model parameters", err)
 	}
-	writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
+	err = writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
 	if err != nil {
 		return base.DescribeError("Error writing model", err)
 	}
@@ -315,11 +318,17 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	}
 
 	f, err := ioutil.TempFile(os.TempDir(), "linear")
+	if err != nil {
+		return base.DescribeError("Error writing MODEL out", err)
+	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
-	f.WriteAt(modelBytes, 0)
+	if _, err := f.WriteAt(modelBytes, 0); err != nil {
+		return base.DescribeError("Error writing MODEL out", err)
+	}
 
 	lr.model = &Model{}
 
@@ -327,6 +336,7 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	if err != nil {
 		return base.DescribeError("Unable to reload the model", err)
 	}
+	lr.param = lr.Param.convertToNativeFormat()
 	return nil
 }
 
-- 
2.43.0


From 211c6664a7fbf4f5e22b0ca7cb03b95c1b4a4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:32 +0000
Subject: [PATCH 40/86] fix: unfitted linear models and trees report an error
 instead of dereferencing nil

---
 linear_models/linearsvc.go |  7 +++++++
 linear_models/logistic.go  |  4 ++++
 trees/id3.go               | 13 +++++++++++++
 trees/random.go            |  6 ++++++
 4 files changed, 30 insertions(+)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index f847c02..78fc903 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -186,6 +186,10 @@ func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 // Predict issues predictions from a trained LinearSVC.
 func (lr *LinearSVC) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
 
+	if lr.model == nil {
+		return nil, NoTrainingDataError
+	}
+
 	// Only support 1 class Attribute
 	classAttrs := X.AllClassAttributes()
 	if len(classAttrs) != 1 {
@@ -249,6 +253,9 @@ func (lr *LinearSVC) Save(filePath string) error {
 }
 
 func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
+	if lr.model == nil {
+		return NoTrainingDataError
+	}
 	params, err := json.Marshal(lr.Param)
 	if err != nil {
 		return base.DescribeError("Error marshalling parameters", err)
diff --git a/linear_models/logistic.go b/linear_models/logistic.go
index 96c3206..4e4f857 100644
--- a/linear_models/logistic.go
+++ b/linear_models/logistic.go
@@ -37,6 +37,10 @@ func (lr *LogisticRegression) Fit(X base.FixedDataGrid) error {
 
 func (lr *LogisticRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
 
+	if lr.model == nil {
+		return nil, NoTrainingDataError
+	}
+
 	// Only support 1 class Attribute
 	classAttrs := X.AllClassAttributes()
 	if len(classAttrs) != 1 {
diff --git a/trees/id3.go b/trees/id3.go
index f8c56cd..703b435 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -3,6 +3,7 @@ package trees
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"sort"
 
@@ -10,6 +11,9 @@ import (
 	"github.com/sjwhitworth/golearn/evaluation"
 )
 
+// errNotFitted is returned when a tree which hasn't been built is used.
+var errNotFitted = errors.New("trees: Fit() (or Load()) must be called first")
+
 // NodeType determines whether a DecisionTreeNode is a leaf or not.
 type NodeType int
 
@@ -446,6 +450,9 @@ func (o ClassesProba) Less(i, j int) bool {
 
 // Predict class probabilities of the input samples what, returns a sorted array (by probability) of classes, and another array representing it's probabilities
 func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, error) {
+	if t.Root == nil {
+		return nil, errNotFitted
+	}
 	d := t.Root
 	predictions := base.GeneratePredictionVector(what)
 	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), predictions.AllClassAttributes())
@@ -556,6 +563,9 @@ func (t *ID3DecisionTree) Fit(on base.FixedDataGrid) error {
 
 // Predict outputs predictions from the ID3 decision tree
 func (t *ID3DecisionTree) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
+	if t.Root == nil {
+		return nil, errNotFitted
+	}
 	return t.Root.Predict(what)
 }
 
@@ -586,6 +596,9 @@ func (t *ID3DecisionTree) Save(filePath string) error {
 }
 
 func (t *ID3DecisionTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
+	if t.Root == nil {
+		return errNotFitted
+	}
 	return t.Root.SaveWithPrefix(writer, prefix)
 }
 
diff --git a/trees/random.go b/trees/random.go
index b6cbe84..287c8c0 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -75,6 +75,9 @@ func (rt *RandomTree) Fit(from base.FixedDataGrid) error {
 
 // Predict returns a set of Instances containing predictions
 func (rt *RandomTree) Predict(from base.FixedDataGrid) (base.FixedDataGrid, error) {
+	if rt.Root == nil {
+		return nil, errNotFitted
+	}
 	return rt.Root.Predict(from)
 }
 
@@ -104,6 +107,9 @@ func (rt *RandomTree) Save(filePath string) error {
 
 // SaveWithPrefix outputs this model to a file with a prefix.
 func (rt *RandomTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
+	if rt.Root == nil {
+		return errNotFitted
+	}
 	return rt.Root.SaveWithPrefix(writer, prefix)
 }
 
-- 
2.43.0


From 97fffa22546f5a06c092442f4e13389d063a9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:00 +0000
Subject: [PATCH 41/86] fix: ensembles report the training, prediction and
 archive errors of the models they wrap

---
 ensemble/multisvc.go     |  8 ++++----
 ensemble/randomforest.go | 12 +++++++-----
 meta/bagging.go          | 42 +++++++++++++++++++++++++++++++++-------
 meta/one_v_all.go        | 26 +++++++++++++++++--------
 4 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 2f29780..244d768 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -69,8 +69,7 @@ func (m *MultiLinearSVC) initializeOneVsAllModel() {
 // Fit builds the MultiLinearSVC by building n (where n is the number of values
 // the singular CategoricalAttribute can take) seperate one-vs-rest models.
 func (m *MultiLinearSVC) Fit(instances base.FixedDataGrid) error {
-	m.m.Fit(instances)
-	return nil
+	return m.m.Fit(instances)
 }
 
 // Predict issues predictions from the MultiLinearSVC. Each underlying LinearSVC is
@@ -99,10 +98,10 @@ func (m *MultiLinearSVC) Save(filePath string) error {
 	}
 	err = m.SaveWithPrefix(serializer, "")
 	if err != nil {
+		serializer.Close()
 		return fmt.Errorf("Unable to Save(): %v", err)
 	}
-	serializer.Close()
-	return err
+	return serializer.Close()
 }
 
 func (m *MultiLinearSVC) SaveWithPrefix(serializer *base.ClassifierSerializer, prefix string) error {
@@ -141,6 +140,7 @@ func (m *MultiLinearSVC) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 
 	err = m.LoadWithPrefix(reader, "")
 	if err != nil {
diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index d2688d5..e3d9a22 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -48,8 +48,7 @@ func (f *RandomForest) Fit(on base.FixedDataGrid) error {
 		tree := trees.NewID3DecisionTree(0.00)
 		f.Model.AddModel(tree)
 	}
-	f.Model.Fit(on)
-	return nil
+	return f.Model.Fit(on)
 }
 
 // Predict generates predictions from a trained RandomForest.
@@ -77,9 +76,11 @@ func (f *RandomForest) Save(filePath string) error {
 		return err
 	}
 
-	err = f.SaveWithPrefix(writer, "model")
-	writer.Close()
-	return err
+	if err := f.SaveWithPrefix(writer, "model"); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (f *RandomForest) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -91,6 +92,7 @@ func (f *RandomForest) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 	return f.LoadWithPrefix(reader, "model")
 }
 
diff --git a/meta/bagging.go b/meta/bagging.go
index 9d8d788..f708e6f 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -59,7 +59,9 @@ func (b *BaggedModel) generateTrainingAttrs(model int, from base.FixedDataGrid)
 // requested base.Instances with only the base.Attributes selected
 // for training the model.
 func (b *BaggedModel) generatePredictionInstances(model int, from base.FixedDataGrid) base.FixedDataGrid {
+	b.lock.Lock()
 	selected := b.selectedAttributes[model]
+	b.lock.Unlock()
 	return base.NewInstancesViewFromAttrs(from, selected)
 }
 
@@ -80,19 +82,29 @@ func (b *BaggedModel) AddModel(m base.Classifier) {
 
 // Fit generates and trains each model on a randomised subset of
 // Instances.
-func (b *BaggedModel) Fit(from base.FixedDataGrid) {
+//
+// If any of the models can't be trained, the error from the first of them
+// is returned.
+func (b *BaggedModel) Fit(from base.FixedDataGrid) error {
 	var wait sync.WaitGroup
 	b.selectedAttributes = make(map[int][]base.Attribute)
+	errs := make([]error, len(b.Models))
 	for i, m := range b.Models {
 		wait.Add(1)
 		go func(c base.Classifier, f base.FixedDataGrid, model int) {
+			defer wait.Done()
 			l := b.generateTrainingInstances(model, f)
-			c.Fit(l)
-			wait.Done()
+			errs[model] = c.Fit(l)
 		}(m, from, i)
 	}
 	wait.Wait()
+	for i, err := range errs {
+		if err != nil {
+			return base.FormatError(err, "Can't fit model %d", i)
+		}
+	}
 	b.fitOn = base.NewStructuralCopy(from)
+	return nil
 }
 
 // Predict gathers predictions from all the classifiers
@@ -107,6 +119,9 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	// Count the votes for each class
 	voting := make(map[int](map[string]int))
 
+	// Records what went wrong with each of the models, if anything
+	errs := make([]error, len(b.Models))
+
 	// Create a goroutine to collect the votes
 	var votingwait sync.WaitGroup
 	votingwait.Add(1)
@@ -142,7 +157,11 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 				if i, ok := <-processpipe; ok {
 					c := b.Models[i]
 					l := b.generatePredictionInstances(i, from)
-					v, _ := c.Predict(l)
+					v, err := c.Predict(l)
+					if err != nil {
+						errs[i] = err
+						continue
+					}
 					votes <- v
 				} else {
 					processwait.Done()
@@ -161,6 +180,13 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	close(votes)       // Close the vote channel and allow it to drain
 	votingwait.Wait()  // All the votes are in
 
+	// Without a prediction from every model, there's no consensus
+	for i, err := range errs {
+		if err != nil {
+			return nil, base.FormatError(err, "Can't predict with model %d", i)
+		}
+	}
+
 	// Generate the overall consensus
 	ret := base.GeneratePredictionVector(from)
 	for i := range voting {
@@ -206,9 +232,11 @@ func (b *BaggedModel) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	err = b.SaveWithPrefix(writer, "")
-	writer.Close()
-	return err
+	if err := b.SaveWithPrefix(writer, ""); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (b *BaggedModel) Load(filePath string) error {
diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index e6a7e6f..baa12ed 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -34,7 +34,9 @@ func NewOneVsAllModel(f func(string) base.Classifier) *OneVsAllModel {
 // Fit creates n filtered datasets (where n is the number of values
 // a CategoricalAttribute can take) and uses them to train the
 // underlying classifiers.
-func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
+//
+// If any of the underlying classifiers can't be trained, its error is returned.
+func (m *OneVsAllModel) Fit(using base.FixedDataGrid) error {
 	var classAttr *base.CategoricalAttribute
 	// Do some validation
 	classAttrs := using.AllClassAttributes()
@@ -77,7 +79,10 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
 		filters[i] = f
 		classifiers[i] = m.NewClassifierFunction(classVals[int(i)])
 		if !fittingToStructure {
-			classifiers[i].Fit(base.NewLazilyFilteredInstances(using, f))
+			err := classifiers[i].Fit(base.NewLazilyFilteredInstances(using, f))
+			if err != nil {
+				return base.FormatError(err, "Can't fit classifier for class %s", classVals[int(i)])
+			}
 		}
 	}
 
@@ -85,6 +90,7 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
 	m.classifiers = classifiers
 	m.fitOn = base.NewStructuralCopy(using)
 	m.classValues = classVals
+	return nil
 }
 
 // Predict issues predictions. Each class-specific classifier is expected
@@ -151,10 +157,10 @@ func (m *OneVsAllModel) LoadWithPrefix(reader *base.ClassifierDeserializer, pref
 	if err != nil {
 		return base.DescribeError("Can't load INSTANCE_STRUCTURE", err)
 	}
-	m.Fit(fitOn)
-	/*if err != nil {
-		base.DescribeError("Could not fit reloaded classifier to the structure", err)
-	}*/
+	err = m.Fit(fitOn)
+	if err != nil {
+		return base.DescribeError("Could not fit reloaded classifier to the structure", err)
+	}
 
 	// Reload the filters
 	numFiltersU64, err := reader.GetU64ForKey(reader.Prefix(prefix, "FILTER_COUNT"))
@@ -254,7 +260,11 @@ func (m *OneVsAllModel) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	return m.SaveWithPrefix(writer, "")
+	if err := m.SaveWithPrefix(writer, ""); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -324,7 +334,7 @@ func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix
 		}
 	}
 
-	return writer.Close()
+	return nil
 }
 
 func (m *OneVsAllModel) generateAttributes(from base.FixedDataGrid) map[base.Attribute]base.Attribute {
-- 
2.43.0


From f4f7b7f28877109bfeddebd0c292c4a39d44c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 42/86] fix: class Attributes are listed in a fixed order

---
 base/dense.go           | 16 ++++++++++++++--
 base/filtered.go        |  3 +++
 base/mat.go             |  2 +-
 base/util_attributes.go | 16 ++++++++++++++++
 base/view.go            |  3 +++
 5 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/base/dense.go b/base/dense.go
index 3864c40..d699ba7 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"sort"
 	"sync"
 )
 
@@ -338,11 +339,22 @@ func (inst *DenseInstances) AllClassAttributes() []Attribute {
 // allClassAttributes returns a slice of Attributes which have
 // been designated class Attributes (doesn't lock)
 func (inst *DenseInstances) allClassAttributes() []Attribute {
-	var ret []Attribute
+	var specs []AttributeSpec
 	for a := range inst.classAttrs {
 		if inst.classAttrs[a] {
-			ret = append(ret, a.attr)
+			specs = append(specs, a)
+		}
+	}
+	// Always in storage order, whatever the order of the map
+	sort.Slice(specs, func(i, j int) bool {
+		if specs[i].pond != specs[j].pond {
+			return specs[i].pond < specs[j].pond
 		}
+		return specs[i].position < specs[j].position
+	})
+	var ret []Attribute
+	for _, s := range specs {
+		ret = append(ret, s.attr)
 	}
 	return ret
 }
diff --git a/base/filtered.go b/base/filtered.go
index e112b11..61047de 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -138,6 +138,9 @@ func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 			ret = append(ret, a)
 		}
 	}
+	if len(ret) > 1 {
+		orderAttributesAs(ret, l.AllAttributes())
+	}
 	return ret
 }
 
diff --git a/base/mat.go b/base/mat.go
index 11f35ff..257d84b 100644
--- a/base/mat.go
+++ b/base/mat.go
@@ -72,7 +72,7 @@ func (m *Mat64Instances) RemoveClassAttribute(a Attribute) error {
 // AllClassAttributes returns every class attribute.
 func (m *Mat64Instances) AllClassAttributes() []Attribute {
 	ret := make([]Attribute, 0)
-	for i := range m.classAttrs {
+	for i := range m.attributes {
 		if m.classAttrs[i] {
 			ret = append(ret, m.attributes[i])
 		}
diff --git a/base/util_attributes.go b/base/util_attributes.go
index cca6cfb..1344dde 100644
--- a/base/util_attributes.go
+++ b/base/util_attributes.go
@@ -150,3 +150,19 @@ func AttributeDifferenceReferences(a1, a2 []Attribute) []Attribute {
 	}
 	return ret
 }
+
+// orderAttributesAs puts attrs in the order in which they appear in reference.
+// It's used where the Attributes were collected from a map.
+func orderAttributesAs(attrs []Attribute, reference []Attribute) {
+	position := func(a Attribute) int {
+		for i, r := range reference {
+			if r.Equals(a) {
+				return i
+			}
+		}
+		return len(reference)
+	}
+	sort.SliceStable(attrs, func(i, j int) bool {
+		return position(attrs[i]) < position(attrs[j])
+	})
+}
diff --git a/base/view.go b/base/view.go
index 33a657d..e2786ed 100644
--- a/base/view.go
+++ b/base/view.go
@@ -195,6 +195,9 @@ func (v *InstancesView) AllClassAttributes() []Attribute {
 			ret = append(ret, a)
 		}
 	}
+	if len(ret) > 1 {
+		orderAttributesAs(ret, v.AllAttributes())
+	}
 	return ret
 }
 
-- 
2.43.0


From b72e6276c1891a2624efaf86778bc48b8a9b6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:49 +0000
Subject: [PATCH 43/86] fix: loading a random forest restores every tree that
 was saved

---
 ensemble/randomforest.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index e3d9a22..d854437 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -9,6 +9,9 @@ import (
 	"github.com/sjwhitworth/golearn/trees"
 )
 
+// errNotFitted is returned when a forest which hasn't been built is used.
+var errNotFitted = errors.New("ensemble: Fit() (or Load()) must be called first")
+
 // RandomForest classifies instances using an ensemble
 // of bagged random decision trees.
 type RandomForest struct {
@@ -53,6 +56,9 @@ func (f *RandomForest) Fit(on base.FixedDataGrid) error {
 
 // Predict generates predictions from a trained RandomForest.
 func (f *RandomForest) Predict(with base.FixedDataGrid) (base.FixedDataGrid, error) {
+	if f.Model == nil {
+		return nil, errNotFitted
+	}
 	return f.Model.Predict(with)
 }
 
@@ -84,6 +90,9 @@ func (f *RandomForest) Save(filePath string) error {
 }
 
 func (f *RandomForest) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
+	if f.Model == nil {
+		return errNotFitted
+	}
 	return f.Model.SaveWithPrefix(writer, prefix)
 }
 
@@ -97,11 +106,24 @@ func (f *RandomForest) Load(filePath string) error {
 }
 
 func (f *RandomForest) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
-	f.Model = new(meta.BaggedModel)
-	for i := 0; i < f.ForestSize; i++ {
+	// The forest has as many trees as the one that was saved
+	forestSize, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_CLASSIFIERS", err)
+	}
+
+	model := new(meta.BaggedModel)
+	for i := uint64(0); i < forestSize; i++ {
 		tree := trees.NewID3DecisionTree(0.00)
-		f.Model.AddModel(tree)
+		model.AddModel(tree)
 	}
 
-	return f.Model.LoadWithPrefix(reader, prefix)
+	err = model.LoadWithPrefix(reader, prefix)
+	if err != nil {
+		return err
+	}
+	f.Model = model
+	f.ForestSize = len(model.Models)
+	f.Features = model.RandomFeatures
+	return nil
 }
-- 
2.43.0


From cce8269c9d7ae7c57abcdd711b626d4f1ae43258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 44/86] fix: KNN saved as part of another model can be loaded
 again

---
 knn/knn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knn/knn.go b/knn/knn.go
index a4d782f..2aefdc2 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -361,6 +361,13 @@ func (KNN *KNNClassifier) Save(filePath string) error {
 
 // SaveWithPrefix outputs KNN as part of another file.
 func (KNN *KNNClassifier) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
+	// At the top level, the parameters are already part of the file's own METADATA
+	if prefix != "" {
+		err := writer.WriteMetadataAtPrefix(prefix, KNN.GetMetadata())
+		if err != nil {
+			return base.DescribeError("Can't write METADATA", err)
+		}
+	}
 	return writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
 }
 
-- 
2.43.0


From b7c10d0097b80be1b959d87aaeb3ed6d0abc5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 45/86] fix: KNN Predict rejects missing training data and an
 impossible number of neighbours

---
 knn/knn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/knn/knn.go b/knn/knn.go
index 2aefdc2..b8eceff 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -118,6 +118,15 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return nil, errors.New("unsupported searching algorithm")
 	}
 
+	// Check there's something to compare with
+	if KNN.TrainingData == nil {
+		return nil, errors.New("you need to Fit() before you can Predict()")
+	}
+	_, trainingRows := KNN.TrainingData.Size()
+	if KNN.NearestNeighbours < 1 || KNN.NearestNeighbours > trainingRows {
+		return nil, fmt.Errorf("can't find %d nearest neighbours amongst %d rows", KNN.NearestNeighbours, trainingRows)
+	}
+
 	// Check Compatibility
 	allAttrs := base.CheckCompatible(what, KNN.TrainingData)
 	if allAttrs == nil {
-- 
2.43.0


From ae8e4bc4840eca1b5207c3ecab34180a4331b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 46/86] fix: perceptron stores a negative prediction in the row
 it is for

---
 perceptron/average.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index b4d0249..25786e9 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -132,7 +132,7 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		if result > 0.0 {
 			ret.Set(classSpec, i, base.PackU64ToBytes(1))
 		} else {
-			ret.Set(classSpec, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0})
+			ret.Set(classSpec, i, []byte{0, 0, 0, 0, 0, 0, 0, 0})
 		}
 	}
 
-- 
2.43.0


From 2803097e255be482ab82976a642c9af3caa967cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 47/86] fix: neural network reads class neurons after the
 hidden layers, and re-Fit starts afresh

---
 neural/layered.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index c1daee9..d92110d 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -192,12 +192,14 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	trainingAttrs := make(map[base.Attribute]int)
 	classAttrs := make(map[base.Attribute]int)
 	attrCounter := 0
+	m.attrs = make(map[base.Attribute]int)
+	m.classAttrCount = 0
 	for i, a := range inputAttrsVec {
 		attrCounter = i
 		m.attrs[a] = attrCounter
 		trainingAttrs[a] = attrCounter
 	}
-	m.classAttrOffset = attrCounter + 1
+	m.classAttrOffset = attrCounter + 1 + hiddenSize
 	for _, a := range classAttrsVec {
 		attrCounter++
 		m.attrs[a] = attrCounter + hiddenSize
@@ -241,7 +243,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	}
 
 	// Initialise biases for output layer
-	for i := 0; i < len(classAttrsVec); i++ {
+	for i := 1; i <= len(classAttrsVec); i++ {
 		nodeOffset := layerOffset + i
 		m.network.SetBias(nodeOffset, rand.NormFloat64()*0.1)
 	}
-- 
2.43.0


From 63af4c3d4d9000b3e786809c79291e72310d5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 48/86] fix: BinaryConvertFilter maps every non-zero float to
 1, as documented

---
 filters/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/binary.go b/filters/binary.go
index 291ac7d..de95b09 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -93,7 +93,7 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 	} else if _, ok := a.(*base.FloatAttribute); ok {
 		// Float: check for non-zero
 		val := base.UnpackBytesToFloat(attrBytes)
-		if val > 0 {
+		if val != 0 {
 			ret[0] = 1
 		} else {
 			ret[0] = 0
-- 
2.43.0


From ff5c29283ca0ebe83ee5c87c0836e9e75bb3a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 49/86] fix: BinningFilter puts values above the training
 maximum in the last bin

---
 filters/binning.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filters/binning.go b/filters/binning.go
index fb9ebf6..5d4995b 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -90,6 +90,9 @@ func (b *BinningFilter) Transform(a base.Attribute, n base.Attribute, field []by
 	val := float64(af.GetFloatFromSysVal(field))
 	if val <= minVal {
 		disc = 0
+	} else if val >= maxVal {
+		// Includes anything larger than what was seen during training
+		disc = b.bins
 	} else {
 		disc = int(math.Floor(float64(float64(val-minVal)/delta + 0.0001)))
 	}
-- 
2.43.0


From 158874add630c86d86a1ea447bc7b242b400aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 50/86] fix: metrics, ChiMerge and class weights don't depend
 on map iteration order

---
 ensemble/multisvc.go      |  7 +++++++
 evaluation/confusion.go   | 23 +++++++++++++++++------
 filters/chimerge_funcs.go | 12 +++++++++---
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 244d768..638364c 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -6,6 +6,7 @@ import (
 	"github.com/sjwhitworth/golearn/meta"
 
 	"fmt"
+	"sort"
 )
 
 // MultiLinearSVC implements a multi-class Support Vector Classifier using a one-vs-all
@@ -47,7 +48,13 @@ func (m *MultiLinearSVC) initializeOneVsAllModel() {
 		newParams := m.parameters.Copy()
 		if m.weights != nil {
 			weightVec = make([]float64, 2)
+			// Sum in a fixed order, whatever the order of the map
+			names := make([]string, 0, len(m.weights))
 			for i := range m.weights {
+				names = append(names, i)
+			}
+			sort.Strings(names)
+			for _, i := range names {
 				if i != cls {
 					weightVec[0] += m.weights[i]
 				} else {
diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index eb71faf..ed2a75b 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"sort"
 	"text/tabwriter"
 
 	"github.com/sjwhitworth/golearn/base"
@@ -145,7 +146,7 @@ func GetMicroPrecision(c ConfusionMatrix) float64 {
 // classes by averaging the precision measures achieved for each class.
 func GetMacroPrecision(c ConfusionMatrix) float64 {
 	precisionVals := 0.0
-	for k := range c {
+	for _, k := range sortedClasses(c) {
 		precisionVals += GetPrecision(k, c)
 	}
 	return precisionVals / float64(len(c))
@@ -167,12 +168,23 @@ func GetMicroRecall(c ConfusionMatrix) float64 {
 // by averaging the recall measures achieved for each class
 func GetMacroRecall(c ConfusionMatrix) float64 {
 	recallVals := 0.0
-	for k := range c {
+	for _, k := range sortedClasses(c) {
 		recallVals += GetRecall(k, c)
 	}
 	return recallVals / float64(len(c))
 }
 
+// sortedClasses returns the reference classes in alphabetical order, so
+// that nothing depends on map iteration order.
+func sortedClasses(c ConfusionMatrix) []string {
+	ret := make([]string, 0, len(c))
+	for k := range c {
+		ret = append(ret, k)
+	}
+	sort.Strings(ret)
+	return ret
+}
+
 // GetSummary returns a table of precision, recall, true positive,
 // false positive, and true negatives for each class for a given
 // ConfusionMatrix
@@ -183,7 +195,7 @@ func GetSummary(c ConfusionMatrix) string {
 
 	fmt.Fprintln(w, "Reference Class\tTrue Positives\tFalse Positives\tTrue Negatives\tPrecision\tRecall\tF1 Score")
 	fmt.Fprintln(w, "---------------\t--------------\t---------------\t--------------\t---------\t------\t--------")
-	for k := range c {
+	for _, k := range sortedClasses(c) {
 		tp := GetTruePositives(k, c)
 		fp := GetFalsePositives(k, c)
 		tn := GetTrueNegatives(k, c)
@@ -206,11 +218,10 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 	w := new(tabwriter.Writer)
 	w.Init(&buffer, 0, 8, 0, '\t', 0)
 
-	ref := make([]string, 0)
+	ref := sortedClasses(c)
 	fmt.Fprintf(w, "Reference Class\t")
-	for k := range c {
+	for _, k := range ref {
 		fmt.Fprintf(w, "%s\t", k)
-		ref = append(ref, k)
 	}
 	fmt.Fprintf(w, "\n")
 
diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 6b649c1..9a6095b 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -3,6 +3,7 @@ package filters
 import (
 	"github.com/sjwhitworth/golearn/base"
 	"math"
+	"sort"
 )
 
 func ChiMBuildFrequencyTable(attr base.Attribute, inst base.FixedDataGrid) []*FrequencyTableEntry {
@@ -130,9 +131,14 @@ func chiComputeStatistic(entry1 *FrequencyTableEntry, entry2 *FrequencyTableEntr
 		expectedClassValues2[k] /= float64(totalObservations)
 	}
 
-	// Compute chi-squared value
+	// Compute chi-squared value, in an order which doesn't depend on the map
+	classes := make([]string, 0, len(classCounter))
+	for k := range classCounter {
+		classes = append(classes, k)
+	}
+	sort.Strings(classes)
 	chiSum := 0.0
-	for k := range expectedClassValues1 {
+	for _, k := range classes {
 		numerator := float64(entry1.Frequency[k])
 		numerator -= expectedClassValues1[k]
 		numerator = math.Pow(numerator, 2)
@@ -142,7 +148,7 @@ func chiComputeStatistic(entry1 *FrequencyTableEntry, entry2 *FrequencyTableEntr
 		}
 		chiSum += numerator / denominator
 	}
-	for k := range expectedClassValues2 {
+	for _, k := range classes {
 		numerator := float64(entry2.Frequency[k])
 		numerator -= expectedClassValues2[k]
 		numerator = math.Pow(numerator, 2)
-- 
2.43.0


From dff359c381276f1300aaa61b22e39e654435583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 51/86] fix: the kd-tree search skips empty nodes instead of
 returning row 0 for them

---
 kdtree/kdtree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 6bddbe8..3b3347c 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -192,6 +192,10 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 }
 
 func (t *Tree) searchAllNodes(k int, disType pairwise.PairwiseDistanceFunc, target []float64, h *heap, n *node) {
+	if n.feature == -2 {
+		return
+	}
+
 	vectorX := mat.NewDense(len(target), 1, target)
 	vectorY := mat.NewDense(len(target), 1, n.value)
 	length := disType.Distance(vectorX, vectorY)
-- 
2.43.0


From e391117e85784e14a15b468c09777a6ab3d33471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 52/86] fix: DBSCAN keeps border points in the cluster that
 reaches them and never panics on a later core point

---
 clustering/dbscan.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 82861f1..feb9537 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -96,15 +96,13 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 					neighbours = neighbours.Or(neighbours, newNeighbours)
 					reset = true
 				}
-			} else {
-				continue
 			}
 			if clustered.Bit(i) == 0 {
 				clusterMap[c] = append(clusterMap[c], i)
 				clustered = clustered.SetBit(clustered, i, 1)
 			}
 			if reset {
-				i = 0
+				i = -1 // Start again from the first point
 			}
 		}
 	}
@@ -118,8 +116,7 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 		neighbours := big.NewInt(0)
 		neighbours = regionQuery(i, neighbours, dist, params.Eps)
 		if BitCount(neighbours) < params.MinCount {
-			// Noise, cluster 0
-			clustered = clustered.Or(clustered, neighbours)
+			// Noise, unless a later cluster reaches this point
 			continue
 		}
 		c = c + 1 // Increment cluster count
-- 
2.43.0


From 77be74f44473620ad2cddc86846e4d440c5edc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 53/86] fix: PCA Fit centres a copy instead of changing the
 caller's matrix, and Transform centres its input

---
 pca/pca.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pca/pca.go b/pca/pca.go
index c6c6837..7bc4b43 100644
--- a/pca/pca.go
+++ b/pca/pca.go
@@ -8,6 +8,7 @@ import (
 type PCA struct {
 	Num_components int
 	svd            *mat.SVD
+	mean           *mat.Dense // of the columns of the training data
 }
 
 // Number of components. 0 - by default, use number of features as number of components
@@ -24,8 +25,8 @@ func (pca *PCA) FitTransform(X *mat.Dense) *mat.Dense {
 // Fit PCA model
 func (pca *PCA) Fit(X *mat.Dense) *PCA {
 	// Mean to input data
-	M := mean(X)
-	X = matrixSubVector(X, M)
+	pca.mean = mean(X)
+	X = matrixSubVector(mat.DenseCopyOf(X), pca.mean)
 
 	// Get SVD decomposition from data
 	pca.svd = &mat.SVD{}
@@ -47,6 +48,7 @@ func (pca *PCA) Transform(X *mat.Dense) *mat.Dense {
 	}
 
 	num_samples, num_features := X.Dims()
+	X = matrixSubVector(mat.DenseCopyOf(X), pca.mean)
 
 	vTemp := new(mat.Dense)
 	pca.svd.VTo(vTemp)
-- 
2.43.0


From eb981fe9b90bdde86d4206ea30bfca050be4c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 54/86] fix: CSV parsing reports seek and scan errors instead
 of reading from the wrong position

---
 base/csv.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/base/csv.go b/base/csv.go
index 758fa70..9727287 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -5,6 +5,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"runtime"
 	"strings"
@@ -12,7 +13,9 @@ import (
 
 // ParseCSVGetRowsFromReader returns the number of rows in a given reader.
 func ParseCSVGetRowsFromReader(r io.ReadSeeker) (int, error) {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return 0, err
+	}
 	reader := csv.NewReader(r)
 	counter := 0
 	for {
@@ -36,8 +39,11 @@ func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 	// Scan through the file line-by-line
 	maxL := 0
 
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return 0, err
+	}
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32) // however long the lines are
 	lineCount := 0
 	for scanner.Scan() {
 		if lineCount > 5 {
@@ -65,7 +71,7 @@ func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 		}
 		lineCount++
 	}
-	return maxL, nil
+	return maxL, scanner.Err()
 }
 
 // ParseCSVGetAttributesFromReader returns an ordered slice of appropriate-ly typed
@@ -83,7 +89,9 @@ func ParseCSVGetAttributesFromReader(r io.ReadSeeker, hasHeaders bool) []Attribu
 // of a given reader with CSV-contents, or placeholders if hasHeaders is false.
 func ParseCSVSniffAttributeNamesFromReader(r io.ReadSeeker, hasHeaders bool) []string {
 
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		panic(err)
+	}
 	reader := csv.NewReader(r)
 	headers, err := reader.Read()
 	if err != nil {
@@ -112,7 +120,9 @@ func ParseCSVSniffAttributeTypesFromReader(r io.ReadSeeker, hasHeaders bool) []A
 	var attrs []Attribute
 
 	// Create the CSV reader
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		panic(err)
+	}
 	reader := csv.NewReader(r)
 	if hasHeaders {
 		// Skip the headers
@@ -170,7 +180,9 @@ func ParseCSVBuildInstancesFromReader(r io.ReadSeeker, attrs []Attribute, hasHea
 
 	specs := ResolveAttributes(u, attrs)
 
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return err
+	}
 	reader := csv.NewReader(r)
 
 	for {
-- 
2.43.0


From 23145011946c9b4ad5c17bd6da7136249d3d5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 55/86] fix: CART best split reports the errors of the loss
 computation on the child nodes

---
 trees/cart_classifier.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index daf6a29..df31542 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -251,8 +251,14 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 				var leftGini, rightGini float64
 				var leftLabels, rightLabels int64
 
-				leftGini, leftLabels, _ = calculateClassificationLoss(leftY, labels, criterion)
-				rightGini, rightLabels, _ = calculateClassificationLoss(rightY, labels, criterion)
+				leftGini, leftLabels, err = calculateClassificationLoss(leftY, labels, criterion)
+				if err != nil {
+					return upperNode, err
+				}
+				rightGini, rightLabels, err = calculateClassificationLoss(rightY, labels, criterion)
+				if err != nil {
+					return upperNode, err
+				}
 
 				// Calculate weighted gini impurity of child nodes
 				subGini := (leftGini * float64(len(left)) / float64(numData)) + (rightGini * float64(len(right)) / float64(numData))
-- 
2.43.0


From 57b7bd5bd8e8f88d1bee81f44d12061c58713b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 56/86] fix: neural network conversion and tree pruning don't
 go on after an error

---
 neural/layered.go | 4 +++-
 trees/id3.go      | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index d92110d..61187ac 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -59,7 +59,9 @@ func (m *MultiLayerNet) convertToFloatInsts(X base.FixedDataGrid) base.FixedData
 	for _, a := range X.AllAttributes() {
 		fFilt.AddAttribute(a)
 	}
-	fFilt.Train()
+	if err := fFilt.Train(); err != nil {
+		panic(err) // some Attribute can't be represented as a float
+	}
 	insts := base.NewLazilyFilteredInstances(X, fFilt)
 	return insts
 }
diff --git a/trees/id3.go b/trees/id3.go
index 703b435..8a3eea0 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -314,7 +314,10 @@ func (d *DecisionTreeNode) String() string {
 
 // computeAccuracy is a helper method for Prune()
 func computeAccuracy(predictions base.FixedDataGrid, from base.FixedDataGrid) float64 {
-	cf, _ := evaluation.GetConfusionMatrix(from, predictions)
+	cf, err := evaluation.GetConfusionMatrix(from, predictions)
+	if err != nil {
+		panic(err)
+	}
 	return evaluation.GetAccuracy(cf)
 }
 
-- 
2.43.0


From 57a4744c6cdded0188f604767a5b61e688bd9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 57/86] fix: DenseInstances.String and CopyDenseInstances read
 the structure under its lock

---
 base/dense.go          | 2 ++
 base/util_instances.go | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/dense.go b/base/dense.go
index d699ba7..e32f2bb 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -527,6 +527,7 @@ func (inst *DenseInstances) String() string {
 	buffer.WriteString(fmt.Sprintf("%d attribute(s)\n", cols))
 	buffer.WriteString(fmt.Sprintf("Attributes: \n"))
 
+	inst.lock.Lock()
 	for _, a := range as {
 		prefix := "\t"
 		if inst.classAttrs[a] {
@@ -534,6 +535,7 @@ func (inst *DenseInstances) String() string {
 		}
 		buffer.WriteString(fmt.Sprintf("%s%s\n", prefix, a.attr))
 	}
+	inst.lock.Unlock()
 
 	buffer.WriteString("\nData:\n")
 	maxRows := 30
diff --git a/base/util_instances.go b/base/util_instances.go
index 8143827..2e7a47a 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -41,7 +41,10 @@ func CopyDenseInstances(template *DenseInstances, templateAttrs []Attribute) *De
 		if err != nil {
 			panic(err)
 		}
-		if ag, ok := template.agRevMap[s.pond]; !ok {
+		template.lock.Lock()
+		ag, ok := template.agRevMap[s.pond]
+		template.lock.Unlock()
+		if !ok {
 			panic(ag)
 		} else {
 			_, err := instances.AddAttributeToAttributeGroup(a, ag)
-- 
2.43.0


From 369219146003ae6b28425450c4c6049d02de6876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:18 +0000
Subject: [PATCH 58/86] fix: create the attribute groups of a dense copy in the
 order of the original

---
 base/dense.go          | 13 +++++++++++++
 base/util_instances.go |  3 ++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/base/dense.go b/base/dense.go
index e32f2bb..c9e9e50 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -166,6 +166,19 @@ func (inst *DenseInstances) AllAttributeGroups() map[string]AttributeGroup {
 	return ret
 }
 
+// attributeGroupNames returns the names of the AttributeGroups in
+// the order they were created.
+func (inst *DenseInstances) attributeGroupNames() []string {
+	inst.lock.Lock()
+	defer inst.lock.Unlock()
+
+	ret := make([]string, len(inst.ags))
+	for i := range inst.ags {
+		ret[i] = inst.agRevMap[i]
+	}
+	return ret
+}
+
 // GetAttributeGroup returns a reference to a AttributeGroup of a given name /
 func (inst *DenseInstances) GetAttributeGroup(name string) (AttributeGroup, error) {
 	inst.lock.Lock()
diff --git a/base/util_instances.go b/base/util_instances.go
index 2e7a47a..78929d8 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -27,7 +27,8 @@ func GeneratePredictionVector(from FixedDataGrid) UpdatableDataGrid {
 func CopyDenseInstances(template *DenseInstances, templateAttrs []Attribute) *DenseInstances {
 	instances := NewDenseInstances()
 	templateAgs := template.AllAttributeGroups()
-	for ag := range templateAgs {
+	// Create the AttributeGroups in the template's order
+	for _, ag := range template.attributeGroupNames() {
 		agTemplate := templateAgs[ag]
 		if _, ok := agTemplate.(*BinaryAttributeGroup); ok {
 			instances.CreateAttributeGroup(ag, 0)
-- 
2.43.0


From e1519532e9389bd909370ed7a2750bfdf4b57e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 59/86] fix: create attribute groups from CSV in a fixed order

---
 base/csv.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/csv.go b/base/csv.go
index 9727287..8b17e84 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"regexp"
 	"runtime"
+	"sort"
 	"strings"
 )
 
@@ -361,8 +362,13 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		}
 	}
 
-	// Create them
+	// Create them (in a fixed order)
+	agNames := make([]string, 0, len(agsToCreate))
 	for i := range agsToCreate {
+		agNames = append(agNames, i)
+	}
+	sort.Strings(agNames)
+	for _, i := range agNames {
 		size := agsToCreate[i]
 		err = instances.CreateAttributeGroup(i, size)
 		if err != nil {
-- 
2.43.0


From e44e72561d225b9c9e299a6b003d2d8ce67fd54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 60/86] fix: infer the branches of a decision tree in a fixed
 order

---
 trees/id3.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trees/id3.go b/trees/id3.go
index 8a3eea0..b092dc5 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -268,7 +268,13 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 	}
 	// Create new children from these attributes
 	ret.Children = make(map[string]*DecisionTreeNode)
+	// Visit them in a fixed order, the RuleGenerator may draw random numbers
+	splitKeys := make([]string, 0, len(splitInstances))
 	for k := range splitInstances {
+		splitKeys = append(splitKeys, k)
+	}
+	sort.Strings(splitKeys)
+	for _, k := range splitKeys {
 		newInstances := splitInstances[k]
 		ret.Children[k] = InferID3Tree(newInstances, with)
 	}
-- 
2.43.0


From dbfe5914142506d482a01d2438256c7afb7cf809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 61/86] fix: add up group distances in a fixed order in the
 optimised KNN

---
 knn/knn_opt_euclidean.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/knn/knn_opt_euclidean.go b/knn/knn_opt_euclidean.go
index a6b159c..0a5b81f 100644
--- a/knn/knn_opt_euclidean.go
+++ b/knn/knn_opt_euclidean.go
@@ -29,7 +29,13 @@ func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base
 	agPred := d.AllAttributeGroups()
 	classAttrs := tr.AllClassAttributes()
 	counter := 0
+	// Visit the AttributeGroups in a fixed order
+	agNames := make([]string, 0, len(agTrain))
 	for ag := range agTrain {
+		agNames = append(agNames, ag)
+	}
+	sort.Strings(agNames)
+	for _, ag := range agNames {
 		// Detect whether the AttributeGroup has any classes in it
 		attrs := agTrain[ag].Attributes()
 		//matched := false
@@ -62,7 +68,7 @@ func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base
 		for i := 0; i < trainRows; i++ {
 			distanceVec[i].dist = 0
 		}
-		for ag := range agPred {
+		for _, ag := range agNames {
 			if ap, ok := agPos[ag]; ok {
 				C.euclidean_distance(
 					&(distanceVec[0]),
-- 
2.43.0


From 824370dea020e5f72c42f203fb36760dfb923da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 62/86] fix: predict the same value on both sides of a CART
 root that is not split

---
 trees/cart_classifier.go | 2 ++
 trees/cart_regressor.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index df31542..dc76922 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -207,6 +207,8 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 	if err != nil {
 		return upperNode, err
 	}
+	// A node that is not split predicts the same label on both sides
+	upperNode.RightLabel = upperNode.LeftLabel
 
 	bestGini = origGini
 
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 69ae9d6..49beb12 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -193,6 +193,8 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 	if err != nil {
 		return upperNode, err
 	}
+	// A node that is not split predicts the same value on both sides
+	upperNode.RightPred = upperNode.LeftPred
 
 	bestLoss = origLoss
 
-- 
2.43.0


From 253aba66286ca4a664a5a9becd7579f56f3878e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 63/86] fix: close the file, not only the gzip stream, when a
 model reader is closed

---
 base/serialize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/serialize.go b/base/serialize.go
index 5d9d9a9..d9fdf3b 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -155,8 +155,8 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 	//
 	var metadata ClassifierMetadataV1
 	ret := &ClassifierDeserializer{
-		f,
 		gzr,
+		f,
 		tz,
 		&metadata,
 	}
-- 
2.43.0


From 16c3912c329a1680858e2503d86572c4f97b9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 64/86] fix: close the model file when finishing it fails

---
 base/serialize.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index d9fdf3b..cf78fb4 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -266,22 +266,27 @@ func (c *ClassifierSerializer) Close() error {
 
 	// Finally, close and flush the various levels
 	if err := c.tarWriter.Flush(); err != nil {
+		c.fileWriter.Close()
 		return fmt.Errorf("Could not flush tar: %s", err)
 	}
 
 	if err := c.tarWriter.Close(); err != nil {
+		c.fileWriter.Close()
 		return fmt.Errorf("Could not close tar: %s", err)
 	}
 
 	if err := c.gzipWriter.Flush(); err != nil {
+		c.fileWriter.Close()
 		return fmt.Errorf("Could not flush gz: %s", err)
 	}
 
 	if err := c.gzipWriter.Close(); err != nil {
+		c.fileWriter.Close()
 		return fmt.Errorf("Could not close gz: %s", err)
 	}
 
 	if err := c.fileWriter.Sync(); err != nil {
+		c.fileWriter.Close()
 		return fmt.Errorf("Could not close file writer: %s", err)
 	}
 
-- 
2.43.0


From be916168aa2f09a910324785789dd376bbe2fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 65/86] fix: InstancesView and LazilyFilteredInstances keep
 their own version of an Attribute and match Attributes by equality

---
 base/filtered.go | 43 ++++++++++++++++++++++++++++++++-----------
 base/view.go     | 10 +++++-----
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 61047de..b407bca 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -30,9 +30,12 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	unFilteredMap := make(map[Attribute]bool)
 	for _, a := range src.AllAttributes() {
 		unFilteredMap[a] = true
-	}
-	for _, a := range attrs {
-		unFilteredMap[a.Old] = false
+		// Attributes are matched by equality, not identity
+		for _, b := range attrs {
+			if a.Equals(b.Old) {
+				unFilteredMap[a] = false
+			}
+		}
 	}
 
 	// Create the return structure
@@ -51,9 +54,26 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	return ret
 }
 
+// getUnfiltered returns the source's own version of an Attribute which is
+// passed through without modification, or nil if there's no such Attribute.
+func (l *LazilyFilteredInstances) getUnfiltered(target Attribute) Attribute {
+	if unfiltered, ok := l.unfilteredMap[target]; ok {
+		if unfiltered {
+			return target
+		}
+		return nil
+	}
+	for a, unfiltered := range l.unfilteredMap {
+		if unfiltered && a.Equals(target) {
+			return a
+		}
+	}
+	return nil
+}
+
 // GetAttribute returns an AttributeSpecification for a given Attribute
 func (l *LazilyFilteredInstances) GetAttribute(target Attribute) (AttributeSpec, error) {
-	if l.unfilteredMap[target] {
+	if l.getUnfiltered(target) != nil {
 		return l.src.GetAttribute(target)
 	}
 	var ret AttributeSpec
@@ -89,8 +109,8 @@ func (l *LazilyFilteredInstances) AllAttributes() []Attribute {
 // AddClassAttribute adds a given Attribute (either before or after filtering)
 // to the set of defined class Attributes.
 func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
-	if l.unfilteredMap[cls] {
-		l.classAttrs[cls] = true
+	if own := l.getUnfiltered(cls); own != nil {
+		l.classAttrs[own] = true
 		return nil
 	}
 	matched := false
@@ -109,8 +129,8 @@ func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
 // RemoveClassAttribute removes a given Attribute (either before or
 // after filtering) from the set of defined class Attributes.
 func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
-	if l.unfilteredMap[cls] {
-		l.classAttrs[cls] = false
+	if own := l.getUnfiltered(cls); own != nil {
+		l.classAttrs[own] = false
 		return nil
 	}
 	matched := false
@@ -145,7 +165,7 @@ func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 }
 
 func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (AttributeSpec, error) {
-	if l.unfilteredMap[as.GetAttribute()] {
+	if l.getUnfiltered(as.GetAttribute()) != nil {
 		return as, nil
 	}
 	for _, a := range l.attrs {
@@ -154,6 +174,7 @@ func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (
 			if err != nil {
 				return AttributeSpec{}, fmt.Errorf("Internal error in Attribute resolution: '%s'", err)
 			}
+			as.attr = a.Old // the version known to the filter
 			return as, nil
 		}
 	}
@@ -167,7 +188,7 @@ func (l *LazilyFilteredInstances) Get(as AttributeSpec, row int) []byte {
 		panic(fmt.Sprintf("Attribute %s could not be resolved. (Error: %s)", as.String(), err.Error()))
 	}
 	byteSeq := l.src.Get(asOld, row)
-	if l.unfilteredMap[as.attr] {
+	if l.getUnfiltered(as.attr) != nil {
 		return byteSeq
 	}
 	newByteSeq := l.filter.Transform(asOld.attr, as.attr, byteSeq)
@@ -193,7 +214,7 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
-			if l.unfilteredMap[asv[i].attr] {
+			if l.getUnfiltered(asv[i].attr) != nil {
 				newRowBuf[i] = b
 				continue
 			}
diff --git a/base/view.go b/base/view.go
index e2786ed..5bd7874 100644
--- a/base/view.go
+++ b/base/view.go
@@ -152,25 +152,25 @@ func (v *InstancesView) AllAttributes() []Attribute {
 // class Attributes, if it hasn't been filtered.
 func (v *InstancesView) AddClassAttribute(a Attribute) error {
 	// Check that this Attribute is defined
-	matched := false
+	var own Attribute
 	for _, r := range v.AllAttributes() {
 		if r.Equals(a) {
-			matched = true
+			own = r
 		}
 	}
-	if !matched {
+	if own == nil {
 		return fmt.Errorf("Attribute has been filtered")
 	}
 
 	// Attributes are matched by equality, not identity
 	for c := range v.classAttrs {
-		if c.Equals(a) {
+		if c.Equals(own) {
 			v.classAttrs[c] = true
 			return nil
 		}
 	}
 
-	v.classAttrs[a] = true
+	v.classAttrs[own] = true
 	return nil
 }
 
-- 
2.43.0


From e1f240a6745fc4c1b2c9959845b8d86368f64fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 66/86] fix: discretising filters accepted an Attribute equal
 to one of the training set's and then ignored it

---
 filters/disc.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filters/disc.go b/filters/disc.go
index 940829e..d52a716 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -17,11 +17,12 @@ func (d *AbstractDiscretizeFilter) AddAttribute(a base.Attribute) error {
 	if _, ok := a.(*base.FloatAttribute); !ok {
 		return fmt.Errorf("%s is not a FloatAttribute", a)
 	}
-	_, err := d.train.GetAttribute(a)
+	as, err := d.train.GetAttribute(a)
 	if err != nil {
 		return fmt.Errorf("invalid attribute")
 	}
-	d.attrs[a] = true
+	// Use the training set's own version of the Attribute
+	d.attrs[as.GetAttribute()] = true
 	return nil
 }
 
-- 
2.43.0


From 51efb84568169f50e00746a3bc32b88dbfc08359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 67/86] fix: MultiLayerNet.Predict looked Attributes up by
 identity, so converted features and other data sets panicked

---
 neural/layered.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index 61187ac..45c66e6 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -66,6 +66,18 @@ func (m *MultiLayerNet) convertToFloatInsts(X base.FixedDataGrid) base.FixedData
 	return insts
 }
 
+// getAttrIndex returns the node corresponding to the given Attribute.
+// Attributes are matched by equality, because those of another set of
+// instances (or those freshly converted to floats) aren't identical.
+func (m *MultiLayerNet) getAttrIndex(a base.Attribute) (int, bool) {
+	for b, index := range m.attrs {
+		if b.Equals(a) {
+			return index, true
+		}
+	}
+	return -1, false
+}
+
 // Predict uses the underlying network to produce predictions for the
 // class variables of X.
 //
@@ -115,6 +127,26 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 	// Resolve the output Attributespecs
 	outputAs := base.ResolveAttributes(ret, outputAttrs)
 
+	// Find the nodes which they correspond to
+	inputIndex := make([]int, len(inputAs))
+	for i, as := range inputAs {
+		cIndex, ok := m.getAttrIndex(as.GetAttribute())
+		if !ok {
+			panic("Can't resolve the Attribute!")
+		}
+		inputIndex[i] = cIndex
+	}
+	outputIndex := make([]int, len(outputAs))
+	if floatMode > 0 {
+		for i, as := range outputAs {
+			cIndex, ok := m.getAttrIndex(as.GetAttribute())
+			if !ok {
+				panic("Can't resolve the Attribute!")
+			}
+			outputIndex[i] = cIndex
+		}
+	}
+
 	// Map over each input row
 	insts.MapOverRows(inputAs, func(row [][]byte, rc int) (bool, error) {
 		// Clear the activation vector
@@ -123,20 +155,15 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		}
 		// Build the activation vector
 		for i, vb := range row {
-			if cIndex, ok := m.attrs[inputAs[i].GetAttribute()]; !ok {
-				panic("Can't resolve the Attribute!")
-			} else {
-				a.Set(cIndex, 0, base.UnpackBytesToFloat(vb))
-			}
+			a.Set(inputIndex[i], 0, base.UnpackBytesToFloat(vb))
 		}
 		// Robots, activate!
 		m.network.Activate(a, layers)
 
 		// Decide which class to set
 		if floatMode > 0 {
-			for _, as := range outputAs {
-				cIndex := m.attrs[as.GetAttribute()]
-				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
+			for i, as := range outputAs {
+				ret.Set(as, rc, base.PackFloatToBytes(a.At(outputIndex[i], 0)))
 			}
 		} else {
 			maxIndex := 0
-- 
2.43.0


From 8dfd52e7ce405dfef204e955123a8131b22e969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 68/86] fix: decision trees excluded the class Attribute by
 identity, so an equal one leaked the label into the features

---
 trees/entropy.go | 2 +-
 trees/gini.go    | 2 +-
 trees/gr.go      | 2 +-
 trees/id3.go     | 4 ++--
 trees/random.go  | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index fd6e629..3bf84ba 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -24,7 +24,7 @@ func (r *InformationGainRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *
 
 	attrs := f.AllAttributes()
 	classAttrs := f.AllClassAttributes()
-	candidates := base.AttributeDifferenceReferences(attrs, classAttrs)
+	candidates := base.AttributeDifference(attrs, classAttrs)
 
 	return r.GetSplitRuleFromSelection(candidates, f)
 }
diff --git a/trees/gini.go b/trees/gini.go
index 9307b29..8ca4635 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -23,7 +23,7 @@ func (g *GiniCoefficientRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *
 
 	attrs := f.AllAttributes()
 	classAttrs := f.AllClassAttributes()
-	candidates := base.AttributeDifferenceReferences(attrs, classAttrs)
+	candidates := base.AttributeDifference(attrs, classAttrs)
 
 	return g.GetSplitRuleFromSelection(candidates, f)
 }
diff --git a/trees/gr.go b/trees/gr.go
index 46577f5..549e462 100644
--- a/trees/gr.go
+++ b/trees/gr.go
@@ -23,7 +23,7 @@ func (r *InformationGainRatioRuleGenerator) GenerateSplitRule(f base.FixedDataGr
 
 	attrs := f.AllAttributes()
 	classAttrs := f.AllClassAttributes()
-	candidates := base.AttributeDifferenceReferences(attrs, classAttrs)
+	candidates := base.AttributeDifference(attrs, classAttrs)
 
 	return r.GetSplitRuleFromSelection(candidates, f)
 }
diff --git a/trees/id3.go b/trees/id3.go
index b092dc5..8de973e 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -394,7 +394,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	if err != nil {
 		panic(err)
 	}
-	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), predictions.AllClassAttributes())
+	predAttrs := base.AttributeDifference(what.AllAttributes(), predictions.AllClassAttributes())
 	predAttrSpecs := base.ResolveAttributes(what, predAttrs)
 	what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		cur := d
@@ -464,7 +464,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 	}
 	d := t.Root
 	predictions := base.GeneratePredictionVector(what)
-	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), predictions.AllClassAttributes())
+	predAttrs := base.AttributeDifference(what.AllAttributes(), predictions.AllClassAttributes())
 	predAttrSpecs := base.ResolveAttributes(what, predAttrs)
 
 	_, rowCount := what.Size()
diff --git a/trees/random.go b/trees/random.go
index 287c8c0..c0dd010 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -19,7 +19,7 @@ func (r *RandomTreeRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *Decis
 	var consideredAttributes []base.Attribute
 
 	// First step is to generate the random attributes that we'll consider
-	allAttributes := base.AttributeDifferenceReferences(f.AllAttributes(), f.AllClassAttributes())
+	allAttributes := base.AttributeDifference(f.AllAttributes(), f.AllClassAttributes())
 	maximumAttribute := len(allAttributes)
 
 	attrCounter := 0
-- 
2.43.0


From a0f2d6e061d56d20fc53357eb3e747bbb7769883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 69/86] fix: knn: keep the class Attribute out of the distances
 wherever it is

---
 knn/knn.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index b8eceff..bb40cb1 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -143,20 +143,15 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 	}
 
-	// Remove the Attributes which aren't numeric
+	// Remove the Attributes which aren't numeric, and those which we are
+	// trying to predict (wherever they are amongst the others).
 	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
+	for _, a := range base.AttributeDifference(allAttrs, KNN.TrainingData.AllClassAttributes()) {
 		if fAttr, ok := a.(*base.FloatAttribute); ok {
 			allNumericAttrs = append(allNumericAttrs, fAttr)
 		}
 	}
 
-	// If every Attribute is a FloatAttribute, then we remove the last one
-	// because that is the Attribute we are trying to predict.
-	if len(allNumericAttrs) == len(allAttrs) {
-		allNumericAttrs = allNumericAttrs[:len(allNumericAttrs)-1]
-	}
-
 	// Generate return vector
 	ret := base.GeneratePredictionVector(what)
 
-- 
2.43.0


From aa8100d43f77481bc5794a556df18c32df34e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:18 +0000
Subject: [PATCH 70/86] fix: reading an Attribute or a split rule whose JSON
 holds a value of the wrong kind returns an error instead of panicking

---
 base/categorical.go | 13 +++++++++++--
 base/float.go       |  6 +++++-
 trees/id3.go        |  6 +++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/base/categorical.go b/base/categorical.go
index ddcffb1..06bd068 100644
--- a/base/categorical.go
+++ b/base/categorical.go
@@ -31,8 +31,17 @@ func (Attr *CategoricalAttribute) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	for _, v := range d["values"].([]interface{}) {
-		Attr.values = append(Attr.values, v.(string))
+	raw, present := d["values"]
+	values, ok := raw.([]interface{})
+	if !present || (!ok && raw != nil) {
+		return fmt.Errorf("Values must be a list")
+	}
+	for _, v := range values {
+		val, ok := v.(string)
+		if !ok {
+			return fmt.Errorf("Values must be strings")
+		}
+		Attr.values = append(Attr.values, val)
 	}
 	return nil
 }
diff --git a/base/float.go b/base/float.go
index db01d09..fd83b0d 100644
--- a/base/float.go
+++ b/base/float.go
@@ -33,7 +33,11 @@ func (f *FloatAttribute) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	if precision, ok := d["precision"]; ok {
-		f.Precision = int(precision.(float64))
+		p, ok := precision.(float64)
+		if !ok {
+			return fmt.Errorf("Precision must be a number")
+		}
+		f.Precision = int(p)
 		return nil
 	}
 	return fmt.Errorf("Precision must be specified")
diff --git a/trees/id3.go b/trees/id3.go
index 8de973e..a8d8790 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -65,7 +65,11 @@ func (d *DecisionTreeRule) unmarshalJSON(data []byte) error {
 		return err
 	}
 	if splitVal, ok := jsonMap["split_val"]; ok {
-		d.SplitVal = splitVal.(float64)
+		val, ok := splitVal.(float64)
+		if !ok {
+			return fmt.Errorf("split_val must be a number")
+		}
+		d.SplitVal = val
 	}
 	split := jsonMap["split_attribute"]
 	splitBytes, err := json.Marshal(split)
-- 
2.43.0


From f7d87baf9616a0b3f1e0d267ee66e776b4ba4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:48 +0000
Subject: [PATCH 71/86] fix: reading a number or an Attribute list of the wrong
 length from an archive returns an error instead of panicking

---
 base/serialize.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/serialize.go b/base/serialize.go
index cf78fb4..1bb13ab 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -210,6 +210,9 @@ func (c *ClassifierDeserializer) GetU64ForKey(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if len(b) != 8 {
+		return 0, WrapError(fmt.Errorf("%s: expected 8 bytes, got %d", key, len(b)))
+	}
 	return UnpackBytesToU64(b), nil
 }
 
@@ -235,14 +238,15 @@ func (c *ClassifierDeserializer) GetAttributesForKey(key string) ([]Attribute, e
 		return nil, DescribeError("Unable to read ATTR_COUNT", err)
 	}
 
-	ret := make([]Attribute, attrCount)
+	ret := make([]Attribute, 0)
 
-	for i := range ret {
+	for i := uint64(0); i < attrCount; i++ {
 		attrKey := c.Prefix(key, fmt.Sprintf("%d", i))
-		ret[i], err = c.GetAttributeForKey(attrKey)
+		attr, err := c.GetAttributeForKey(attrKey)
 		if err != nil {
 			return nil, DescribeError("Unable to read Attribute", err)
 		}
+		ret = append(ret, attr)
 	}
 	return ret, nil
 }
-- 
2.43.0


From 5ab6f88fd071d3f66619a1350cb252d33413fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:24 +0000
Subject: [PATCH 72/86] fix: DeserializeInstances rejects a row count the DATA
 section cannot hold instead of panicking

---
 base/serialize_instances.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index c8f76d9..f7573a8 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -156,12 +156,6 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		}
 		allAttributes[i+len(normalAttrs)] = v
 	}
-	// Allocate memory
-	err = ret.Extend(int(rowCount))
-	if err != nil {
-		return nil, WrapError(fmt.Errorf("Could not allocate memory"))
-	}
-
 	// Seek through the TAR file until we get to the DATA section
 	reader := tr.Regenerate()
 	for {
@@ -172,10 +166,20 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 			return nil, WrapError(fmt.Errorf("Error seeking to DATA section: %s", err))
 		}
 		if hdr.Name == p("DATA") {
+			// Every value takes up at least a byte
+			if rowCount < 0 || (attrCount > 0 && int64(rowCount) > hdr.Size) {
+				return nil, WrapError(fmt.Errorf("DIMS: DATA section can't hold %d row(s)", rowCount))
+			}
 			break
 		}
 	}
 
+	// Allocate memory
+	err = ret.Extend(int(rowCount))
+	if err != nil {
+		return nil, WrapError(fmt.Errorf("Could not allocate memory"))
+	}
+
 	// Resolve AttributeSpecs
 	specs := ResolveAttributes(ret, allAttributes)
 
-- 
2.43.0


From eee5a440eea9707c89e2eebd69447ca0ba0ca76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:00 +0000
Subject: [PATCH 73/86] fix: a data row with the wrong number of values is
 reported as an error instead of panicking or being filled up with zeroes

---
 base/arff.go | 6 +++---
 base/csv.go  | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index da8a9ee..2817034 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -99,9 +99,6 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if counting {
-			if line[0] == '@' {
-				continue
-			}
 			if line[0] == '%' {
 				continue
 			}
@@ -241,6 +238,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 				} else if err != nil {
 					return err
 				}
+				if len(r) != len(specs) {
+					return fmt.Errorf("Expected %d value(s), got %d on line '%s'", len(specs), len(r), line)
+				}
 				for i, v := range r {
 					v = strings.TrimSpace(v)
 					if a, ok := specs[i].attr.(*CategoricalAttribute); ok {
diff --git a/base/csv.go b/base/csv.go
index 8b17e84..b0986f6 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -199,6 +199,9 @@ func ParseCSVBuildInstancesFromReader(r io.ReadSeeker, attrs []Attribute, hasHea
 				continue
 			}
 		}
+		if len(record) > len(specs) {
+			return fmt.Errorf("Expected %d value(s), got %d on row %d", len(specs), len(record), rowCounter)
+		}
 		for i, v := range record {
 			// support missing values
 			if v == "" {
-- 
2.43.0


From ba3f4ac582a7bad84e4c4c21c99745ccda9190b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 74/86] fix: a random tree that considers more attributes than
 are left never stopped drawing

---
 trees/random.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trees/random.go b/trees/random.go
index c0dd010..4bd7b5d 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -22,9 +22,15 @@ func (r *RandomTreeRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *Decis
 	allAttributes := base.AttributeDifference(f.AllAttributes(), f.AllClassAttributes())
 	maximumAttribute := len(allAttributes)
 
+	// There may be fewer Attributes left than we'd like to consider
+	wantedAttributes := r.Attributes
+	if wantedAttributes > maximumAttribute {
+		wantedAttributes = maximumAttribute
+	}
+
 	attrCounter := 0
 	for {
-		if len(consideredAttributes) >= r.Attributes {
+		if len(consideredAttributes) >= wantedAttributes {
 			break
 		}
 		selectedAttrIndex := rand.Intn(maximumAttribute)
-- 
2.43.0


From 17aac00aad24faf32eda24ae318731144c1dbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:32 +0000
Subject: [PATCH 75/86] fix: bagging with more random features than attributes
 never stopped drawing

---
 meta/bagging.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index f708e6f..073d3a6 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -25,11 +25,16 @@ type BaggedModel struct {
 func (b *BaggedModel) generateTrainingAttrs(model int, from base.FixedDataGrid) []base.Attribute {
 	ret := make([]base.Attribute, 0)
 	attrs := base.NonClassAttributes(from)
+	// There may be fewer Attributes available than asked for
+	features := b.RandomFeatures
+	if features > len(attrs) {
+		features = len(attrs)
+	}
 	if b.RandomFeatures == 0 {
 		ret = attrs
 	} else {
 		for {
-			if len(ret) >= b.RandomFeatures {
+			if len(ret) >= features {
 				break
 			}
 			attrIndex := rand.Intn(len(attrs))
-- 
2.43.0


From 34de7e3a1d524be63225cc0978e5d0be41ce7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 76/86] fix: choosing a numeric split never ended on NaN values
 and skipped thresholds after duplicates

---
 trees/entropy.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index 3bf84ba..bc44747 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -132,20 +132,17 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 	}
 
 	// Consider each possible function
-	for i := 0; i < len(refs)-1; {
+	for i := 0; i < len(refs)-1; i++ {
 		val := refs[i].val + refs[i+1].val
 		val /= 2
 		if val == prevVal {
-			i++
 			continue
 		}
 		// refs is sorted, so we only need to update values that are
 		// bigger than prevVal, but are lower than val
-		for j := prevInd; j < len(refs) && refs[j].val < val; j++ {
-			splitDist[0][refs[j].class]++
-			splitDist[1][refs[j].class]--
-			i++
-			prevInd++
+		for ; prevInd < len(refs) && refs[prevInd].val < val; prevInd++ {
+			splitDist[0][refs[prevInd].class]++
+			splitDist[1][refs[prevInd].class]--
 		}
 		prevVal = val
 		splitEntropy := getSplitEntropyFast(splitDist)
-- 
2.43.0


From fa026455abfc5dbbce436fad86cb84408a0bffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:06 +0000
Subject: [PATCH 77/86] fix: neural prediction gave an invalid class when no
 output was above zero

---
 neural/layered.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index 45c66e6..0b78b0e 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -166,8 +166,8 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 				ret.Set(as, rc, base.PackFloatToBytes(a.At(outputIndex[i], 0)))
 			}
 		} else {
-			maxIndex := 0
-			maxVal := 0.0
+			maxIndex := m.classAttrOffset
+			maxVal := math.Inf(-1)
 			for i := m.classAttrOffset; i < m.classAttrOffset+m.classAttrCount; i++ {
 				val := a.At(i, 0)
 				if val > maxVal {
-- 
2.43.0


From 417df28e12a6b4e645812179e92a78d8ce5b0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:13 +0000
Subject: [PATCH 78/86] fix: softplus activation was paired with the derivative
 of the sigmoid

---
 neural/funcs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/funcs.go b/neural/funcs.go
index 48bf3db..344f8b7 100644
--- a/neural/funcs.go
+++ b/neural/funcs.go
@@ -22,5 +22,5 @@ var Linear NeuralFunction = NeuralFunction{
 // https://www.wikiwand.com/en/Rectifier_(neural_networks)
 var SoftplusRectifier NeuralFunction = NeuralFunction{
 	func(v float64) float64 { return math.Log(1 + math.Exp(v)) },
-	func(v float64) float64 { return v * (1 - v) },
+	func(v float64) float64 { return 1 - math.Exp(-v) },
 }
-- 
2.43.0


From 49a99fb65c2b959f546df44022b6bd126a9471c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:26 +0000
Subject: [PATCH 79/86] fix: one-vs-all always chose the first class when no
 classifier was above zero

---
 meta/one_v_all.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index baa12ed..116399b 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -3,6 +3,7 @@ package meta
 import (
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
+	"math"
 )
 
 // OneVsAllModel replaces class Attributes with numeric versions
@@ -122,7 +123,7 @@ func (m *OneVsAllModel) Predict(what base.FixedDataGrid) (base.FixedDataGrid, er
 	spec := base.ResolveAttributes(ret, ret.AllClassAttributes())[0]
 	for i := 0; i < rows; i++ {
 		class := uint64(0)
-		best := 0.0
+		best := math.Inf(-1)
 		for j := uint64(0); j <= m.maxClassVal; j++ {
 			val := base.UnpackBytesToFloat(vecs[j].Get(specs[j], i))
 			if val > best {
-- 
2.43.0


From c93bfdd6d64d83ae0099da469e7fe986798a694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:53 +0000
Subject: [PATCH 80/86] fix: a CSV file with a header read into attribute
 groups no longer gets an extra empty row

---
 base/csv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index b0986f6..9e720fb 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -329,6 +329,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		return nil, err
 	}
 
+	if hasHeaders {
+		rowCount--
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	for i := range attrs {
-- 
2.43.0


From 7c7944422d1c2a8d7bfe76b687b17234086d5307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:00 +0000
Subject: [PATCH 81/86] fix: the values of a nominal ARFF Attribute are split
 at commas, with or without blanks around them

---
 base/arff.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 2817034..13e4f6d 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -155,23 +155,12 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		default:
 			if fields[2][0] == '{' {
 				if strings.HasSuffix(fields[len(fields)-1], "}") {
-					var cats []string
-					if len(fields) > 3 {
-						cats = fields[2:len(fields)]
-					} else {
-						cats = strings.Split(fields[2], ",")
-					}
-					if len(cats) == 0 {
-						panic(fmt.Errorf("Empty categorical field on line '%s'", line))
-					}
-					cats[0] = cats[0][1:]                                            // Remove leading '{'
-					cats[len(cats)-1] = cats[len(cats)-1][:len(cats[len(cats)-1])-1] // Remove trailing '}'
-					for i, v := range cats {                                         // Miaow
+					// The values are separated by commas, with or without blanks
+					decl := strings.Join(fields[2:], " ")
+					decl = strings.TrimSuffix(strings.TrimPrefix(decl, "{"), "}")
+					cats := strings.Split(decl, ",")
+					for i, v := range cats { // Miaow
 						cats[i] = strings.TrimSpace(v)
-						if strings.HasSuffix(cats[i], ",") {
-							// Strip end comma
-							cats[i] = cats[i][0 : len(cats[i])-1]
-						}
 					}
 					attr = NewCategoricalAttribute()
 					for _, v := range cats {
-- 
2.43.0


From b215a39c49d64f23eba0fee83af75fb992a839ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:29 +0000
Subject: [PATCH 82/86] fix: sorting numbers put the negative ones after the
 positive ones, backwards

---
 base/sort.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/base/sort.go b/base/sort.go
index 1cbfa57..47e2e5a 100644
--- a/base/sort.go
+++ b/base/sort.go
@@ -5,10 +5,22 @@ import (
 	"encoding/binary"
 )
 
-func sortXorOp(b []byte) []byte {
+// sortKey returns bytes which are in the same order as the values they're made from,
+// when compared from the last byte to the first.
+func sortKey(a Attribute, b []byte) []byte {
 	ret := make([]byte, len(b))
 	copy(ret, b)
-	ret[0] ^= 0x80
+	if _, ok := a.(*FloatAttribute); !ok {
+		return ret
+	}
+	if last := len(ret) - 1; ret[last]&0x80 == 0 {
+		ret[last] ^= 0x80
+	} else {
+		// The larger a negative number's magnitude, the smaller it is
+		for i := range ret {
+			ret[i] ^= 0xFF
+		}
+	}
 	return ret
 }
 
@@ -47,11 +59,7 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 		byteBuf := make([]byte, rowSize)
 
 		for i, r := range row {
-			if i == 0 {
-				binary.Write(buf, binary.LittleEndian, sortXorOp(r))
-			} else {
-				binary.Write(buf, binary.LittleEndian, r)
-			}
+			binary.Write(buf, binary.LittleEndian, sortKey(attrs[i].attr, r))
 		}
 
 		buf.Read(byteBuf)
-- 
2.43.0


From 15907c9a1257f8ec6241f2c6cf2a0184edfb864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:40 +0000
Subject: [PATCH 83/86] fix: numbers of a data frame lost their digits past six
 decimals

---
 base/dataframe_go.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/dataframe_go.go b/base/dataframe_go.go
index b5a186f..39385c7 100644
--- a/base/dataframe_go.go
+++ b/base/dataframe_go.go
@@ -1,7 +1,6 @@
 package base
 
 import (
-	"fmt"
 	"reflect"
 	"strconv"
 
@@ -53,9 +52,9 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 			case int64:
 				val = strconv.FormatInt(v, 10)
 			case float64:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(v, 'g', -1, 64)
 			case float32:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(float64(v), 'g', -1, 32)
 			}
 
 			newInst.Set(newSpecs[j], i, newSpecs[j].GetAttribute().GetSysValFromString(val))
-- 
2.43.0


From ae97fcda0cbc88289c6373aaf672ba3bc335886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:44 +0000
Subject: [PATCH 84/86] fix: a value at which a ChiMerge interval starts went
 to the interval below

---
 filters/chimerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index 826e8d0..d197c51 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -173,7 +173,7 @@ func (c *ChiMergeFilter) Transform(a base.Attribute, n base.Attribute, field []b
 	dis := 0
 	val := base.UnpackBytesToFloat(field)
 	for j, k := range table {
-		if k.Value < val {
+		if k.Value <= val {
 			dis = j
 			continue
 		}
-- 
2.43.0


From 68edaf987237309566cb6629b09b265b6943e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:50 +0000
Subject: [PATCH 85/86] fix: bins whose rounded labels are equal were merged,
 leaving values without a label

---
 filters/binning.go  |  9 +++++----
 filters/chimerge.go |  6 +++++-
 filters/disc.go     | 22 ++++++++++++++++++++++
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/filters/binning.go b/filters/binning.go
index 5d4995b..3f161e1 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -111,11 +111,12 @@ func (b *BinningFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
 			maxVal := b.maxVals[a]
 			delta := float64(maxVal-minVal) / float64(b.bins)
 			retAttr.SetName(a.GetName())
+			vals := make([]float64, 0)
 			for i := 0; i <= b.bins; i++ {
-				floatVal := float64(i)*delta + minVal
-				fmtStr := fmt.Sprintf("%%.%df", a.(*base.FloatAttribute).Precision)
-				binVal := fmt.Sprintf(fmtStr, floatVal)
-				retAttr.GetSysValFromString(binVal)
+				vals = append(vals, float64(i)*delta+minVal)
+			}
+			for _, l := range binLabels(vals, a.(*base.FloatAttribute).Precision) {
+				retAttr.GetSysValFromString(l)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
 		} else {
diff --git a/filters/chimerge.go b/filters/chimerge.go
index d197c51..d2c160f 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -151,8 +151,12 @@ func (c *ChiMergeFilter) GetAttributesAfterFiltering() []base.FilteredAttribute
 		if c.attrs[a] {
 			retAttr := new(base.CategoricalAttribute)
 			retAttr.SetName(a.GetName())
+			vals := make([]float64, 0)
 			for _, k := range c.tables[a] {
-				retAttr.GetSysValFromString(fmt.Sprintf("%f", k.Value))
+				vals = append(vals, k.Value)
+			}
+			for _, l := range binLabels(vals, 6) {
+				retAttr.GetSysValFromString(l)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
 		} else {
diff --git a/filters/disc.go b/filters/disc.go
index d52a716..f52fffc 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -3,6 +3,7 @@ package filters
 import (
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
+	"strconv"
 )
 
 type AbstractDiscretizeFilter struct {
@@ -61,3 +62,24 @@ func (d *AbstractDiscretizeFilter) getAttributeSpecs() []base.AttributeSpec {
 	}
 	return as
 }
+
+// binLabels names bins after the values they start from, with as many decimals
+// (but at least the given number) as it takes to tell them apart.
+func binLabels(vals []float64, decimals int) []string {
+	labels := make([]string, len(vals))
+	for d := decimals; d < decimals+324; d++ {
+		used := make(map[string]bool)
+		for i, v := range vals {
+			labels[i] = strconv.FormatFloat(v, 'f', d, 64)
+			used[labels[i]] = true
+		}
+		if len(used) == len(vals) {
+			return labels
+		}
+	}
+	// Some of the bins start from the same value
+	for i, v := range vals {
+		labels[i] = fmt.Sprintf("%s (%d)", strconv.FormatFloat(v, 'f', decimals, 64), i)
+	}
+	return labels
+}
-- 
2.43.0


From 4dc28f9777a2b777611211661a7079abcd1db715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:07 +0000
Subject: [PATCH 86/86] fix: cluster maps of which one lacks points of the
 other aren't equal

---
 clustering/clustering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustering/clustering.go b/clustering/clustering.go
index 3636d5b..5d6e02b 100644
--- a/clustering/clustering.go
+++ b/clustering/clustering.go
@@ -79,6 +79,9 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 
 	// Check that after transformation, key contains the same points
 	arraysEqual := func(a1, a2 []int) bool {
+		if len(a1) != len(a2) {
+			return false
+		}
 
 		cnt := make(map[int]bool)
 		for _, a := range a1 {
-- 
2.43.0

