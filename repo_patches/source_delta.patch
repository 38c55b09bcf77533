From 51f48593a9ce2a7d90a8978f93421afbe5ec0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 01/38] fix: escape special characters in font and colour space
 names

---
 color_space_obj.go |  4 ++--
 strhelper.go       | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/color_space_obj.go b/color_space_obj.go
index f447fbf..e2c55cd 100644
--- a/color_space_obj.go
+++ b/color_space_obj.go
@@ -39,12 +39,12 @@ func (cs *ColorSpaceObj) SetColorRBG(r, g, b uint8) {
 	cs.colorString0 = "0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f", float64(r)/255.0, float64(g)/255.0, float64(b)/255.0)
 	cs.space = "/DeviceRGB"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapePdfName(cs.Name)
 }
 
 func (cs *ColorSpaceObj) SetColorCMYK(c, m, y, k uint8) {
 	cs.colorString0 = "0.0 0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f %.3f", float64(c)/100.0, float64(m)/100.0, float64(y)/100.0, float64(k)/100.0)
 	cs.space = "/DeviceCMYK"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapePdfName(cs.Name)
 }
diff --git a/strhelper.go b/strhelper.go
index b91af9d..6d8c495 100644
--- a/strhelper.go
+++ b/strhelper.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -28,7 +29,21 @@ func StrHelperGetStringWidthPrecise(str string, fontSize float64, ifont IFont) f
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	return escapePdfName(name)
+}
+
+// escapePdfName writes the characters that may not appear in a PDF name as #xx
+func escapePdfName(name string) string {
+	var sb strings.Builder
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if c <= ' ' || c > '~' || strings.IndexByte("()<>[]{}/%#", c) >= 0 {
+			fmt.Fprintf(&sb, "#%02X", c)
+		} else {
+			sb.WriteByte(c)
+		}
+	}
+	return sb.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From 0d5676e944a35c121a1bf20263a4a84816a37eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 02/38] fix: write null for a link whose anchor is not set
 instead of an empty object

---
 annot_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/annot_obj.go b/annot_obj.go
index dd10a7a..573e8e4 100644
--- a/annot_obj.go
+++ b/annot_obj.go
@@ -49,7 +49,9 @@ func (o annotObj) writeExternalLink(w io.Writer, l linkOption, objID int) error
 func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {
 	a, ok := o.GetRoot().anchors[l.anchor]
 	if !ok {
-		return nil
+		// the anchor was never set: the object still needs a value
+		_, err := io.WriteString(w, "null\n")
+		return err
 	}
 	_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /Dest [%d 0 R /XYZ 0 %.2f null]>>\n",
 		l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)
-- 
2.43.0


From 122a301d91071ee954bc5df671ea156886246066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 03/38] fix: report errors that occur while the document is
 written

---
 gopdf.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 44c4435..609378f 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1048,7 +1048,9 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 	}
 	max := len(gp.pdfObjs)
 	writer := newCountingWriter(w)
-	fmt.Fprint(writer, "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n\n")
+	if _, err := fmt.Fprint(writer, "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n\n"); err != nil {
+		return writer.offset, err
+	}
 	linelens := make([]int64, max)
 	i := 0
 
@@ -1056,19 +1058,29 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		objID := i + 1
 		linelens[i] = writer.offset
 		pdfObj := gp.pdfObjs[i]
-		fmt.Fprintf(writer, "%d 0 obj\n", objID)
-		pdfObj.write(writer, objID)
-		io.WriteString(writer, "endobj\n\n")
+		if _, err := fmt.Fprintf(writer, "%d 0 obj\n", objID); err != nil {
+			return writer.offset, err
+		}
+		if err := pdfObj.write(writer, objID); err != nil {
+			return writer.offset, err
+		}
+		if _, err := io.WriteString(writer, "endobj\n\n"); err != nil {
+			return writer.offset, err
+		}
 		i++
 	}
-	gp.xref(writer, writer.offset, linelens, i)
-	return writer.offset, nil
+	if err := gp.xref(writer, writer.offset, linelens, i); err != nil {
+		return writer.offset, err
+	}
+	// errors of writes whose result was not looked at
+	return writer.offset, writer.err
 }
 
 type (
 	countingWriter struct {
 		offset int64
 		writer io.Writer
+		err    error // first error of the underlying writer
 	}
 )
 
@@ -1077,8 +1089,12 @@ func newCountingWriter(w io.Writer) *countingWriter {
 }
 
 func (cw *countingWriter) Write(b []byte) (int, error) {
+	if cw.err != nil {
+		return 0, cw.err
+	}
 	n, err := cw.writer.Write(b)
 	cw.offset += int64(n)
+	cw.err = err
 	return n, err
 }
 
-- 
2.43.0


From bfb3b18645c04c29d9d513c7bf933a429fcbc9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 04/38] fix: writing the document again does not repeat its
 pages, contents and encryption object

---
 gopdf.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 609378f..f5b45e2 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2251,7 +2251,7 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
 		gp.addObj(encObj)
 	}
@@ -2264,6 +2264,9 @@ func (gp *GoPdf) prepare() {
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		// the document may be written more than once
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -2275,7 +2278,7 @@ func (gp *GoPdf) prepare() {
 				indexCurrPage = i
 			case "Content":
 				if indexCurrPage != -1 {
-					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
+					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf(" %d 0 R ", i+1)
 				}
 			case "Font":
 				tmpfont := gp.pdfObjs[i].(*FontObj)
-- 
2.43.0


From 717be7c7b0f2f5790adc986cd3007828218d069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 05/38] fix: writing an imported template does not move it

---
 cache_content_imported_object.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index a7dca9a..610ade4 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -15,7 +15,7 @@ type cacheContentImportedTemplate struct {
 }
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
-	c.tY += c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY, c.tplName)
+	tY := c.tY + c.pageHeight
+	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, tY, c.tplName)
 	return nil
 }
-- 
2.43.0


From 1569aacf5be367227ed19df5d7b891869dbc6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 06/38] fix: WritePdf returns the error instead of ending the
 process

---
 gopdf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index f5b45e2..608e6e5 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1008,7 +1008,11 @@ func (gp *GoPdf) SetCharSpacing(charSpacing float64) error {
 
 // WritePdf : write pdf file
 func (gp *GoPdf) WritePdf(pdfPath string) error {
-	return os.WriteFile(pdfPath, gp.GetBytesPdf(), 0644)
+	b, err := gp.GetBytesPdfReturnErr()
+	if err != nil {
+		return err
+	}
+	return os.WriteFile(pdfPath, b, 0644)
 }
 
 // WriteTo implements the io.WriterTo interface and can
-- 
2.43.0


From 77a28f3227a81408feaacb9dcbf00992006b9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 07/38] fix: a compression level that is too big is replaced by
 BestCompression as announced

---
 gopdf.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 608e6e5..0e3ae67 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -177,7 +177,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
-- 
2.43.0


From 36b8e9a5ae360b8d96d388ab1ebaa8a361621ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 08/38] fix: no empty blend mode entry for a Transparency
 without a blend mode

---
 ext_g_state_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext_g_state_obj.go b/ext_g_state_obj.go
index 6bb824f..7888d0b 100644
--- a/ext_g_state_obj.go
+++ b/ext_g_state_obj.go
@@ -86,7 +86,7 @@ func (egs ExtGState) write(w io.Writer, objID int) error {
 	if egs.CA != nil {
 		content += fmt.Sprintf("\t/CA %.3F\n", *egs.CA)
 	}
-	if egs.BM != nil {
+	if egs.BM != nil && *egs.BM != "" {
 		content += fmt.Sprintf("\t/BM %s\n", *egs.BM)
 	}
 
-- 
2.43.0


From 0e03c6bd337883f87dbe3f222e1ddab699585e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 09/38] fix: top level outline items refer to the outline
 dictionary as their parent

---
 outlines_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 13cae66..43cd2a1 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -49,7 +49,7 @@ func (o *OutlinesObj) write(w io.Writer, objID int) error {
 }
 
 func (o *OutlinesObj) SetIndexObjOutlines(index int) {
-	o.index = index
+	o.index = index + 1
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-- 
2.43.0


From 4941a0f0286be54c5c69d4e84b2595ef341c5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 10/38] fix: an outline node is linked to the node before it

---
 outlines_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 43cd2a1..e4acf59 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -180,7 +180,7 @@ func (objs OutlineNodes) Parse() {
 		if i == 0 {
 			obj.Obj.SetPrev(-1)
 		} else {
-			obj.Obj.SetNext(objs[i-1].Obj.GetIndex())
+			obj.Obj.SetPrev(objs[i-1].Obj.GetIndex())
 		}
 		if i == len(objs)-1 {
 			obj.Obj.SetNext(-1)
-- 
2.43.0


From 02f1cdf2e7410a9258d81a591de5370c058634ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 11/38] fix: an outline item added before the first page does
 not refer to object 0

---
 outlines_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index e4acf59..1c3cccf 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -159,7 +159,9 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.last > 0 {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
-	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
+	if o.dest > 0 { // there is no page to go to before the first page is added
+		fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
+	}
 	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
 	io.WriteString(w, ">>\n")
 	return nil
-- 
2.43.0


From ef3cc2797ca3c587f795b66fb6275c0942679c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 12/38] fix: an anchor set before the first page is not a link
 to object 0

---
 annot_obj.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/annot_obj.go b/annot_obj.go
index 573e8e4..fbc3f7a 100644
--- a/annot_obj.go
+++ b/annot_obj.go
@@ -48,8 +48,8 @@ func (o annotObj) writeExternalLink(w io.Writer, l linkOption, objID int) error
 
 func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {
 	a, ok := o.GetRoot().anchors[l.anchor]
-	if !ok {
-		// the anchor was never set: the object still needs a value
+	if !ok || a.page < 0 {
+		// the anchor was never set, or not on a page: the object still needs a value
 		_, err := io.WriteString(w, "null\n")
 		return err
 	}
-- 
2.43.0


From 1f0193e2f7ce3f96c2ec9f3fd211cf639a4158b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 13/38] fix: imported templates are listed in the resources in
 the same order every time

---
 procset_obj.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/procset_obj.go b/procset_obj.go
index 77da7ac..fe22751 100644
--- a/procset_obj.go
+++ b/procset_obj.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"sort"
 )
 
 // ProcSetObj is a PDF procSet object.
@@ -47,8 +48,13 @@ func (pr *ProcSetObj) write(w io.Writer, objID int) error {
 		xobjects += fmt.Sprintf("\t\t/I%d %d 0 R\n", XObject.IndexOfObj+1, XObject.IndexOfObj+1)
 	}
 	// Write imported template name and their ids
-	for tplName, objID := range pr.ImportedTemplateIds {
-		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, objID)
+	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))
+	for tplName := range pr.ImportedTemplateIds {
+		tplNames = append(tplNames, tplName)
+	}
+	sort.Strings(tplNames)
+	for _, tplName := range tplNames {
+		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, pr.ImportedTemplateIds[tplName])
 	}
 	xobjects += "\t>>\n"
 
-- 
2.43.0


From e936838f0bc5dc89c39ab2be368ec2d3b4627617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 14/38] fix: encrypt the stream of transparency groups in
 protected documents

---
 gopdf.go                      |  1 +
 transparency_xobject_group.go | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 0e3ae67..2351157 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -621,6 +621,7 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	}
 
 	groupOpts := TransparencyXObjectGroupOptions{
+		Protection:       gp.protection(),
 		BBox:             *bbox,
 		ExtGStateIndexes: opts.extGStateIndexes,
 		XObjects:         []cacheContentImage{*image},
diff --git a/transparency_xobject_group.go b/transparency_xobject_group.go
index e58b1cc..2cfb4e1 100644
--- a/transparency_xobject_group.go
+++ b/transparency_xobject_group.go
@@ -64,6 +64,15 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		}
 	}
 
+	data := streamBuff.Bytes()
+	if s.protection() != nil {
+		tmp, err := rc4Cip(s.protection().objectkey(objId), data)
+		if err != nil {
+			return err
+		}
+		data = tmp
+	}
+
 	content := "<<\n"
 	content += "\t/FormType 1\n"
 	content += "\t/Subtype /Form\n"
@@ -72,7 +81,7 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 	content += fmt.Sprintf("\t/BBox [%.3F %.3F %.3F %.3F]\n", s.BBox[0], s.BBox[1], s.BBox[2], s.BBox[3])
 	content += "\t/Group<</CS /DeviceGray /S /Transparency>>\n"
 
-	content += fmt.Sprintf("\t/Length %d\n", len(streamBuff.Bytes()))
+	content += fmt.Sprintf("\t/Length %d\n", len(data))
 	content += ">>\n"
 	content += "stream\n"
 
@@ -80,11 +89,11 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		return err
 	}
 
-	if _, err := w.Write(streamBuff.Bytes()); err != nil {
+	if _, err := w.Write(data); err != nil {
 		return err
 	}
 
-	if _, err := io.WriteString(w, "endstream\n"); err != nil {
+	if _, err := io.WriteString(w, "\nendstream\n"); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 8d2ce1b2f8d389bf91cc74dfdbc8c28fa980031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 15/38] fix: encrypt outline titles in protected documents

---
 gopdf.go        | 10 ++++++++++
 outlines_obj.go | 16 +++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 2351157..00968d3 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 
 	"github.com/phpdave11/gofpdi"
 )
@@ -2410,6 +2411,15 @@ func encodeUtf8(str string) string {
 	return buff.String()
 }
 
+// encodeTextString : text string (byte order mark and UTF-16BE)
+func encodeTextString(str string) []byte {
+	buff := []byte{0xFE, 0xFF}
+	for _, c := range utf16.Encode([]rune(str)) {
+		buff = append(buff, byte(c>>8), byte(c))
+	}
+	return buff
+}
+
 func infodate(t time.Time) string {
 	ft := t.Format("20060102150405-07'00'")
 	return ft
diff --git a/outlines_obj.go b/outlines_obj.go
index 1c3cccf..d26b742 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -54,6 +54,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
 	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1}
+	oo.init(o.getRoot)
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -68,6 +69,7 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
 	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y}
+	oo.init(o.getRoot)
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -87,6 +89,8 @@ func (o *OutlinesObj) Count() int {
 
 // OutlineObj include attribute of outline
 type OutlineObj struct { //impl IObj
+	getRoot func() *GoPdf
+
 	title  string
 	index  int
 	dest   int
@@ -99,6 +103,7 @@ type OutlineObj struct { //impl IObj
 }
 
 func (o *OutlineObj) init(funcGetRoot func() *GoPdf) {
+	o.getRoot = funcGetRoot
 }
 
 func (o *OutlineObj) SetFirst(first int) {
@@ -145,6 +150,15 @@ func (o *OutlineObj) getType() string {
 //}
 
 func (o *OutlineObj) write(w io.Writer, objID int) error {
+	title := encodeTextString(o.title)
+	if protection := o.getRoot().protection(); protection != nil {
+		tmp, err := rc4Cip(protection.objectkey(objID), title)
+		if err != nil {
+			return err
+		}
+		title = tmp
+	}
+
 	io.WriteString(w, "<<\n")
 	fmt.Fprintf(w, "  /Parent %d 0 R\n", o.parent)
 	if o.prev >= 0 {
@@ -162,7 +176,7 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.dest > 0 { // there is no page to go to before the first page is added
 		fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
 	}
-	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
+	fmt.Fprintf(w, "  /Title <%X>\n", title)
 	io.WriteString(w, ">>\n")
 	return nil
 }
-- 
2.43.0


From 650403788c5c83bc0a5b2a908b6e80ed4e499150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 16/38] fix: encrypt the strings of CIDSystemInfo in protected
 documents

---
 cid_font_obj.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cid_font_obj.go b/cid_font_obj.go
index da8db9b..faac6f4 100644
--- a/cid_font_obj.go
+++ b/cid_font_obj.go
@@ -10,9 +10,11 @@ import (
 type CIDFontObj struct {
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	getRoot                   func() *GoPdf
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
+	ci.getRoot = funcGetRoot
 }
 
 // SetIndexObjSubfontDescriptor set  indexObjSubfontDescriptor
@@ -25,12 +27,26 @@ func (ci *CIDFontObj) getType() string {
 }
 
 func (ci *CIDFontObj) write(w io.Writer, objID int) error {
+	ordering, registry := []byte("Identity"), []byte("Adobe")
+	if protection := ci.getRoot().protection(); protection != nil {
+		key := protection.objectkey(objID)
+		tmp, err := rc4Cip(key, ordering)
+		if err != nil {
+			return err
+		}
+		ordering = tmp
+		if tmp, err = rc4Cip(key, registry); err != nil {
+			return err
+		}
+		registry = tmp
+	}
+
 	io.WriteString(w, "<<\n")
 	fmt.Fprintf(w, "/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily()))
 	io.WriteString(w, "/CIDSystemInfo\n")
 	io.WriteString(w, "<<\n")
-	io.WriteString(w, "  /Ordering (Identity)\n")
-	io.WriteString(w, "  /Registry (Adobe)\n")
+	fmt.Fprintf(w, "  /Ordering <%X>\n", ordering)
+	fmt.Fprintf(w, "  /Registry <%X>\n", registry)
 	io.WriteString(w, "  /Supplement 0\n")
 	io.WriteString(w, ">>\n")
 	fmt.Fprintf(w, "/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1) //TODO fix
-- 
2.43.0


From 522101cfbb85340db0fd71b6f0ecdc9169f2c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 17/38] fix: report errors of cells, fonts, placeholder text
 and the image encoder

---
 gopdf.go | 40 +++++++++++++++++++++++++++++++---------
 table.go |  4 +++-
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 00968d3..25d3b64 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -775,7 +775,9 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 			err = jpeg.Encode(bw, img, nil)
 		}
 
-		bw.Flush()
+		if flushErr := bw.Flush(); err == nil {
+			err = flushErr
+		}
 		if err != nil {
 			w.CloseWithError(err)
 		} else {
@@ -1205,11 +1207,19 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		if totalLineHeight+lineHeight > rectangle.H {
 			break
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		lineWidth, err := gp.MeasureTextWidth(string(line))
+		if err != nil {
+			return err
+		}
+		runeWidth, err := gp.MeasureTextWidth(string(v))
+		if err != nil {
+			return err
+		}
 
 		if lineWidth+runeWidth > rectangle.W {
-			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
+			if err := gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line)); err != nil {
+				return err
+			}
 			gp.Br(lineHeight)
 			gp.SetX(x)
 			totalLineHeight = totalLineHeight + lineHeight
@@ -1219,7 +1229,9 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		line = append(line, v)
 
 		if i == length-1 {
-			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
+			if err := gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line)); err != nil {
+				return err
+			}
 			gp.Br(lineHeight)
 			gp.SetX(x)
 		}
@@ -1249,8 +1261,14 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 		if totalLineHeight+lineHeight > rectangle.H {
 			return false, totalLineHeight, nil
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		lineWidth, err := gp.MeasureTextWidth(string(line))
+		if err != nil {
+			return false, totalLineHeight, err
+		}
+		runeWidth, err := gp.MeasureTextWidth(string(v))
+		if err != nil {
+			return false, totalLineHeight, err
+		}
 
 		if lineWidth+runeWidth > rectangle.W {
 			totalLineHeight += lineHeight
@@ -1334,7 +1352,9 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 	for i, text := range textSplits {
 		lineOpt := opt
 		lineOpt.Align = lineAlign(opt.Align, i == lastLine)
-		gp.CellWithOption(&Rect{W: rectangle.W, H: startHeight}, string(text), lineOpt)
+		if err := gp.CellWithOption(&Rect{W: rectangle.W, H: startHeight}, string(text), lineOpt); err != nil {
+			return err
+		}
 		gp.Br(lineHeight)
 		gp.SetX(x)
 	}
@@ -1474,7 +1494,9 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		if !ok {
 			return errors.New("listCache.caches is not *cacheContentText")
 		}
-		info.fontISubset.AddChars(text)
+		if _, err := info.fontISubset.AddChars(text); err != nil {
+			return err
+		}
 		contentText.text = text
 
 		//Calculate position
diff --git a/table.go b/table.go
index 3ec0027..669a51c 100644
--- a/table.go
+++ b/table.go
@@ -301,7 +301,9 @@ func (t *tableLayout) drawCell(
 	// Set the text color and font
 	t.pdf.SetTextColor(style.TextColor.R, style.TextColor.G, style.TextColor.B)
 	if style.Font != "" {
-		t.pdf.SetFont(style.Font, "", style.FontSize)
+		if err := t.pdf.SetFont(style.Font, "", style.FontSize); err != nil {
+			return err
+		}
 	}
 
 	// Draw the cell content
-- 
2.43.0


From e5339bbe3ed7564ed237339f436ceda7066c179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 18/38] fix: setting up protection does not write into the
 caller's passwords

---
 pdf_protection.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pdf_protection.go b/pdf_protection.go
index 6190938..30c57e9 100644
--- a/pdf_protection.go
+++ b/pdf_protection.go
@@ -49,10 +49,8 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	userPassWithPadding := padPassword(userPass)
+	ownerPassWithPadding := padPassword(ownerPass)
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
@@ -71,6 +69,15 @@ func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte,
 	return nil
 }
 
+// padPassword gives the first 32 bytes of the password followed by the padding. The password itself
+// is left alone, even where its slice has room for more bytes.
+func padPassword(pass []byte) []byte {
+	padded := make([]byte, 0, len(pass)+len(protectionPadding))
+	padded = append(padded, pass...)
+	padded = append(padded, protectionPadding...)
+	return padded[0:32]
+}
+
 // EncryptionObj get Encryption Object
 func (p *PDFProtection) EncryptionObj() *EncryptionObj {
 	return p.encryptionObj()
@@ -131,7 +138,9 @@ func (p *PDFProtection) Objectkey(objID int) []byte {
 func (p *PDFProtection) objectkey(n int) []byte {
 	tmp := make([]byte, 8, 8)
 	binary.LittleEndian.PutUint32(tmp, uint32(n))
-	tmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], 0, 0)
+	tmp2 := make([]byte, 0, len(p.encryptionKey)+5)
+	tmp2 = append(tmp2, p.encryptionKey...)
+	tmp2 = append(tmp2, tmp[0], tmp[1], tmp[2], 0, 0)
 	tmp3 := md5.Sum(tmp2)
 	return tmp3[0:10]
 }
-- 
2.43.0


From 948e97e0e5074e6081ac2e19bfbfa7b0cafc5737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 19/38] fix: option structures and slices of the caller are
 neither changed nor kept

---
 content_obj.go | 12 +++++++++++-
 gopdf.go       | 25 +++++++++++++++----------
 table.go       |  2 +-
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/content_obj.go b/content_obj.go
index 6dad489..6611882 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -205,6 +205,10 @@ func (c *ContentObj) AppendStreamSubsetFont(rectangle *Rect, text string, cellOp
 	setXCount := c.getRoot().curr.setXCount
 	fontSubset := c.getRoot().curr.FontISubset
 
+	//they are not needed any more and may be changed by the caller later
+	cellOpt.BreakOption = nil
+	cellOpt.Transparency = nil
+
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
 		rectangle:      rectangle,
@@ -390,6 +394,12 @@ func (c *ContentObj) GetCacheContentImage(index int, opts ImageOptions) *cacheCo
 		maskAngle = opts.Mask.DegreeAngle
 	}
 
+	var crop *CropOptions
+	if opts.Crop != nil {
+		cropOpts := *opts.Crop
+		crop = &cropOpts
+	}
+
 	return &cacheContentImage{
 		withMask:         withMask,
 		imageAngle:       opts.DegreeAngle,
@@ -399,7 +409,7 @@ func (c *ContentObj) GetCacheContentImage(index int, opts ImageOptions) *cacheCo
 		x:                opts.X,
 		y:                opts.Y,
 		rect:             *opts.Rect,
-		crop:             opts.Crop,
+		crop:             crop,
 		verticalFlip:     opts.VerticalFlip,
 		horizontalFlip:   opts.HorizontalFlip,
 		extGStateIndexes: opts.extGStateIndexes,
diff --git a/gopdf.go b/gopdf.go
index 25d3b64..c4c14d4 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -205,11 +205,13 @@ func (gp *GoPdf) SetLineType(linetype string) {
 //	pdf.SetCustomLineType([]float64{0.8, 0.8}, 0)
 //	pdf.Line(50, 200, 550, 200)
 func (gp *GoPdf) SetCustomLineType(dashArray []float64, dashPhase float64) {
-	for i := range dashArray {
-		gp.UnitsToPointsVar(&dashArray[i])
+	dashes := make([]float64, len(dashArray))
+	copy(dashes, dashArray)
+	for i := range dashes {
+		gp.UnitsToPointsVar(&dashes[i])
 	}
 	gp.UnitsToPointsVar(&dashPhase)
-	gp.getContent().AppendStreamSetCustomLineType(dashArray, dashPhase)
+	gp.getContent().AppendStreamSetCustomLineType(dashes, dashPhase)
 }
 
 // Line : draw line
@@ -514,6 +516,9 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	}
 
 	if opts.Mask != nil {
+		mask := *opts.Mask // the options of the mask belong to the caller
+		opts.Mask = &mask
+
 		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
 		if err != nil {
 			return err
@@ -2488,11 +2493,11 @@ func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, er
 	if ok {
 		return &cached, nil
 	} else if transparency.Alpha != DefaultAplhaValue {
-		bm := transparency.BlendModeType
+		saved := *transparency // it belongs to the caller
 		opts := ExtGStateOptions{
-			BlendMode:     &bm,
-			StrokingCA:    &transparency.Alpha,
-			NonStrokingCa: &transparency.Alpha,
+			BlendMode:     &saved.BlendModeType,
+			StrokingCA:    &saved.Alpha,
+			NonStrokingCa: &saved.Alpha,
 		}
 
 		extGState, err := GetCachedExtGState(opts, gp)
@@ -2500,11 +2505,11 @@ func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, er
 			return nil, err
 		}
 
-		transparency.extGStateIndex = extGState.Index + 1
+		saved.extGStateIndex = extGState.Index + 1
 
-		gp.curr.transparencyMap.Save(*transparency)
+		gp.curr.transparencyMap.Save(saved)
 
-		return transparency, nil
+		return &saved, nil
 	}
 
 	return nil, nil
diff --git a/table.go b/table.go
index 669a51c..2db4154 100644
--- a/table.go
+++ b/table.go
@@ -140,7 +140,7 @@ func (t *tableLayout) AddRow(row []string) {
 // Adds a row of data to the table with individual styled cells
 // Useful for styling individual cells in a row
 func (t *tableLayout) AddStyledRow(row []RowCell) {
-	t.rows = append(t.rows, row)
+	t.rows = append(t.rows, append([]RowCell(nil), row...))
 }
 
 // Sets the style for the entire table
-- 
2.43.0


From 3d3773c51ae00893e4b4b7bb8af4f15679fc5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 20/38] fix: a random owner password does not reseed the
 generator of the whole process

---
 pdf_protection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf_protection.go b/pdf_protection.go
index 30c57e9..1fc0016 100644
--- a/pdf_protection.go
+++ b/pdf_protection.go
@@ -121,11 +121,11 @@ func (p *PDFProtection) createUValue(userPassWithPadding []byte, oValue []byte,
 }
 
 func (p *PDFProtection) randomPass(strlen int) []byte {
-	rand.Seed(time.Now().UTC().UnixNano())
+	rd := rand.New(rand.NewSource(time.Now().UTC().UnixNano()))
 	const chars = "abcdef0123456789"
 	result := make([]byte, strlen)
 	for i := 0; i < strlen; i++ {
-		result[i] = chars[rand.Intn(len(chars))]
+		result[i] = chars[rd.Intn(len(chars))]
 	}
 	return result
 }
-- 
2.43.0


From a7222c674210877a9ce61e1ac9e6b966338614d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 21/38] fix: Read no longer hands out the partial output of a
 failed compile

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index c4c14d4..939d995 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1040,6 +1040,7 @@ func (gp *GoPdf) Write(w io.Writer) error {
 func (gp *GoPdf) Read(p []byte) (int, error) {
 	if gp.buf.Len() == 0 && gp.buf.Cap() == 0 {
 		if _, err := gp.compilePdf(&gp.buf); err != nil {
+			gp.buf = bytes.Buffer{} // the next Read must not hand out what was written before the error
 			return 0, err
 		}
 	}
-- 
2.43.0


From 464074291a50c62a9ea30a70187384af14d847d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 22/38] fix: extend a text run only when everything it is drawn
 with is the same

---
 cache_content_text.go |  9 ++++++++-
 cell_option.go        | 19 +++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index e6d01ff..aa509ad 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -45,7 +45,7 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
+	if c.rectangle != nil || cache.rectangle != nil {
 		//if rectangle != nil we assume this is not same content
 		return false
 	}
@@ -53,13 +53,20 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 	// if both colors are nil we assume them equal
 	if ((c.textColor == nil && cache.textColor == nil) ||
 		(c.textColor != nil && c.textColor.equal(cache.textColor))) &&
+		c.txtColorMode == cache.txtColorMode &&
 		c.grayFill == cache.grayFill &&
+		c.fontSubset == cache.fontSubset &&
 		c.fontCountIndex == cache.fontCountIndex &&
 		c.fontSize == cache.fontSize &&
 		c.fontStyle == cache.fontStyle &&
 		c.charSpacing == cache.charSpacing &&
+		c.lineWidth == cache.lineWidth &&
+		c.contentType == cache.contentType &&
+		c.cellOpt.isSame(cache.cellOpt) &&
 		c.setXCount == cache.setXCount &&
+		c.x+c.cellWidthPdfUnit == cache.x && // goes on where this one ends
 		c.y == cache.y &&
+		c.pageheight == cache.pageheight &&
 		c.isPlaceHolder == cache.isPlaceHolder {
 		return true
 	}
diff --git a/cell_option.go b/cell_option.go
index 6a1134b..aea891e 100644
--- a/cell_option.go
+++ b/cell_option.go
@@ -30,3 +30,22 @@ type CellOption struct {
 
 	extGStateIndexes []int
 }
+
+// isSame : both options make a cell look the same
+func (c CellOption) isSame(opt CellOption) bool {
+	if len(c.extGStateIndexes) != len(opt.extGStateIndexes) {
+		return false
+	}
+	for i, index := range c.extGStateIndexes {
+		if index != opt.extGStateIndexes[i] {
+			return false
+		}
+	}
+
+	return c.Align == opt.Align &&
+		c.Border == opt.Border &&
+		c.Float == opt.Float &&
+		c.CoefUnderlinePosition == opt.CoefUnderlinePosition &&
+		c.CoefLineHeight == opt.CoefLineHeight &&
+		c.CoefUnderlineThickness == opt.CoefUnderlineThickness
+}
-- 
2.43.0


From fdc0df97558218bb2da72482966167ffa2d29f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:32 +0000
Subject: [PATCH 23/38] fix: reuse an image object only in the role it was made
 for

---
 current.go |  3 +++
 gopdf.go   | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/current.go b/current.go
index fe1313a..4f97b1e 100644
--- a/current.go
+++ b/current.go
@@ -69,4 +69,7 @@ type ImageCache struct {
 	Path  string //ID or Path
 	Index int
 	Rect  *Rect
+
+	isMask       bool //image object holds the mask of the image
+	splittedMask bool //image object goes without its own mask
 }
diff --git a/gopdf.go b/gopdf.go
index 939d995..b9a46a6 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -547,6 +547,9 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 	var cacheContentImage *cacheContentImage
 
 	for _, imgcache := range gp.curr.ImgCaches {
+		if !imgcache.isMask {
+			continue
+		}
 		if img.ID() == imgcache.Path {
 			cacheImage = &imgcache
 			break
@@ -585,6 +588,8 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 				Index: index,
 				Path:  img.ID(),
 				Rect:  opts.Rect,
+
+				isMask: true,
 			}
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
@@ -655,8 +660,12 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 
 func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 	cacheImageIndex := -1
+	splittedMask := opts.Mask != nil
 
 	for _, imgcache := range gp.curr.ImgCaches {
+		if imgcache.isMask || imgcache.splittedMask != splittedMask {
+			continue
+		}
 		if img.ID() == imgcache.Path {
 			cacheImageIndex = imgcache.Index
 			break
@@ -702,6 +711,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 			imgcache.Index = index
 			imgcache.Path = img.ID()
 			imgcache.Rect = opts.Rect
+			imgcache.splittedMask = splittedMask
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
 		}
-- 
2.43.0


From 61fe83c2d83506b2a7cbf5db44b8b32e3b267cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 24/38] fix: place links, anchors and outlines by the height of
 the current page

---
 gopdf.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index b9a46a6..9217679 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -872,7 +872,7 @@ func (gp *GoPdf) AddOutline(title string) {
 
 // AddOutlineWithPosition add an outline with position
 func (gp *GoPdf) AddOutlineWithPosition(title string) *OutlineObj {
-	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.config.PageSize.H-gp.curr.Y+20)
+	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.curr.pageSize.H-gp.curr.Y+20)
 }
 
 // AddHeader - add a header function, if present this will be automatically called by AddPage()
@@ -1765,7 +1765,7 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, url, ""}
+	linkOpt := linkOption{x, gp.curr.pageSize.H - y, w, h, url, ""}
 	gp.addLink(linkOpt)
 }
 
@@ -1773,7 +1773,7 @@ func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 func (gp *GoPdf) AddInternalLink(anchor string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, "", anchor}
+	linkOpt := linkOption{x, gp.curr.pageSize.H - y, w, h, "", anchor}
 	gp.addLink(linkOpt)
 }
 
@@ -1787,7 +1787,7 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
-	y := gp.config.PageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
+	y := gp.curr.pageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
 
@@ -2237,6 +2237,9 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	gp.config.PageSize = *gp.config.PageSize.unitsToPoints(gp.config)
 	gp.config.TrimBox = *gp.config.TrimBox.unitsToPoints(gp.config)
 
+	// until the first page is added
+	gp.curr.pageSize = &gp.config.PageSize
+
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
 
-- 
2.43.0


From 90b958d16de8522923bad6eafbcc7fc9a3485bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 25/38] fix: SetPage makes the page's own size and object
 current

---
 gopdf.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 9217679..f2ed5a6 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2554,12 +2554,16 @@ func (gp *GoPdf) IsCurrFontContainGlyph(r rune) (bool, error) {
 // SetPage set current page
 func (gp *GoPdf) SetPage(pageno int) error {
 	var pageIndex int
+	indexOfPage := -1
 	for i := 0; i < len(gp.pdfObjs); i++ {
 		switch gp.pdfObjs[i].(type) {
+		case *PageObj:
+			indexOfPage = i
 		case *ContentObj:
 			pageIndex += 1
 			if pageIndex == pageno {
 				gp.indexOfContent = i
+				gp.setCurrentPageObj(indexOfPage)
 				return nil
 			}
 		}
@@ -2568,6 +2572,21 @@ func (gp *GoPdf) SetPage(pageno int) error {
 	return errors.New("invalid page number")
 }
 
+// setCurrentPageObj makes the page at index the one that links, anchors and outlines go to
+// and whose size positions are measured with.
+func (gp *GoPdf) setCurrentPageObj(index int) {
+	if index < 0 {
+		return
+	}
+	page := gp.pdfObjs[index].(*PageObj)
+	gp.curr.IndexOfPageObj = index
+	if page.pageOption.isEmpty() {
+		gp.curr.pageSize = &gp.config.PageSize
+	} else {
+		gp.curr.pageSize = page.pageOption.PageSize
+	}
+}
+
 func (gp *GoPdf) SetColorSpace(name string) error {
 	found := false
 	i := 0
-- 
2.43.0


From a276d7ea11e136e90a24fef1b0be6ed45b806261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:45 +0000
Subject: [PATCH 26/38] fix: rotate a flipped image with a mask about its own
 centre

---
 cache_content_image.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cache_content_image.go b/cache_content_image.go
index 9e4e3f6..a6b1127 100644
--- a/cache_content_image.go
+++ b/cache_content_image.go
@@ -59,8 +59,20 @@ func (c *cacheContentImage) computeMaskImageRotateTrMt() string {
 
 	x := c.x + c.rect.W/2
 	y := c.y + c.rect.H/2
+	pageHeight := c.pageHeight
 
-	rotateMat := computeRotateTransformationMatrix(x, y, angle, c.pageHeight)
+	// the rotation is applied to the flipped image, so that its center and direction are flipped too
+	if c.horizontalFlip {
+		x = -x
+		angle = -angle
+	}
+	if c.verticalFlip {
+		y = -y
+		pageHeight = -pageHeight
+		angle = -angle
+	}
+
+	rotateMat := computeRotateTransformationMatrix(x, y, angle, pageHeight)
 
 	return rotateMat
 }
-- 
2.43.0


From 31e483ed4fe688fe3099dd5e88099a09b91ef99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 27/38] fix: outline entries without a position lead to the top
 of the page

---
 outlines_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index d26b742..b0ea5b1 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -53,7 +53,9 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1}
+	//without a position the entry leads to the top of the page
+	height := o.getRoot().curr.pageSize.H
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: height}
 	oo.init(o.getRoot)
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
-- 
2.43.0


From 2e1001e73f3d2e80ae6da62653e5e0f42c2afcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 28/38] fix: rectangles and boxes ignored the document's own
 conversion factor

---
 gopdf.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index f2ed5a6..a04ca8b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -490,7 +490,7 @@ func (gp *GoPdf) SetXY(x, y float64) {
 func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
 
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 
 	imageOptions := ImageOptions{
 		X:    x,
@@ -504,7 +504,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) error {
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -529,7 +529,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		}
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.UnitsToPoints(gp.config.Unit)
+		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
@@ -748,7 +748,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 // Image : draw image
 func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 	imgh, err := ImageHolderByPath(picPath)
 	if err != nil {
 		return err
@@ -778,7 +778,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 	}
 
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 	r, w := io.Pipe()
 	go func() {
 		bw := bufio.NewWriter(w)
@@ -822,8 +822,8 @@ func (gp *GoPdf) AddPage() {
 
 // AddPageWithOption  : add new page with option
 func (gp *GoPdf) AddPageWithOption(opt PageOption) {
-	opt.TrimBox = opt.TrimBox.UnitsToPoints(gp.config.Unit)
-	opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)
+	opt.TrimBox = opt.TrimBox.unitsToPoints(gp.config)
+	opt.PageSize = opt.PageSize.unitsToPoints(gp.config)
 
 	page := new(PageObj)
 	page.init(func() *GoPdf {
@@ -1167,7 +1167,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
 	}
 
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	text, err = gp.curr.FontISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -1182,7 +1182,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	defaultopt := CellOption{
 		Align:  Left | Top,
 		Border: 0,
-- 
2.43.0


From 654197925bb008aaf93b5d6e1168562d8e9fbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:17 +0000
Subject: [PATCH 29/38] fix: SetNewY, SetNewYIfNoOffset and SetNewXY mixed
 margins in units with positions in points

---
 gopdf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index a04ca8b..d6fd1e5 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -385,9 +385,9 @@ func (gp *GoPdf) GetX() float64 {
 func (gp *GoPdf) SetNewY(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -401,9 +401,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -418,9 +418,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
-- 
2.43.0


From 9743cac8aa8fd7f42b75cea17eac33a0a6cad1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 30/38] fix: the width of a placeholder was converted in the
 wrong direction

---
 gopdf.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index d6fd1e5..f079878 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1465,7 +1465,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 		return err
 	}
 
-	gp.PointsToUnitsVar(&placeHolderWidth)
+	gp.UnitsToPointsVar(&placeHolderWidth)
 	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
 	if err != nil {
 		return err
@@ -1520,13 +1520,12 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		if err != nil {
 			return err
 		}
-		width := pointsToUnits(gp.config, textWidthPdfUnit)
 
 		if align == Right {
-			diff := info.placeHolderWidth - width
+			diff := info.placeHolderWidth - textWidthPdfUnit
 			contentText.x = contentText.x + diff
 		} else if align == Center {
-			diff := info.placeHolderWidth - width
+			diff := info.placeHolderWidth - textWidthPdfUnit
 			contentText.x = contentText.x + diff/2
 		}
 	}
-- 
2.43.0


From 6d19697c8d8eba72b024fd7d669b7ec06ddfa592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:44 +0000
Subject: [PATCH 31/38] fix: FillInPlaceHoldText measured with another font and
 wrote characters that were replaced

---
 gopdf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index f079878..be54fc7 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1510,13 +1510,14 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		if !ok {
 			return errors.New("listCache.caches is not *cacheContentText")
 		}
-		if _, err := info.fontISubset.AddChars(text); err != nil {
+		text, err := info.fontISubset.AddChars(text)
+		if err != nil {
 			return err
 		}
 		contentText.text = text
 
 		//Calculate position
-		_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, info.fontSize, info.charSpacing, nil)
+		_, _, textWidthPdfUnit, err := createContent(info.fontISubset, text, info.fontSize, info.charSpacing, nil)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 21edbb0ef060d93e59fa09b9b6331bfbbea3b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 32/38] fix: crop areas and the bounding box of a mask were
 taken as points whatever the unit of the document

---
 gopdf.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index be54fc7..a1af092 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -123,6 +123,15 @@ type CropOptions struct {
 	Height float64
 }
 
+func (crop *CropOptions) unitsToPoints(unitCfg unitConfigurator) *CropOptions {
+	if crop == nil {
+		return nil
+	}
+	c := *crop
+	unitsToPointsVar(unitCfg, &c.X, &c.Y, &c.Width, &c.Height)
+	return &c
+}
+
 type ImageOptions struct {
 	DegreeAngle    float64
 	VerticalFlip   bool
@@ -505,6 +514,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
 	opts.Rect = opts.Rect.unitsToPoints(gp.config)
+	opts.Crop = opts.Crop.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -530,6 +540,12 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
 		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
+		opts.Mask.ImageOptions.Crop = opts.Mask.ImageOptions.Crop.unitsToPoints(gp.config)
+		if opts.Mask.BBox != nil {
+			bbox := *opts.Mask.BBox
+			gp.UnitsToPointsVar(&bbox[0], &bbox[1], &bbox[2], &bbox[3])
+			opts.Mask.BBox = &bbox
+		}
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
-- 
2.43.0


From 542935b4f03a939ad0998a6de9008531ccdbcc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 33/38] fix: ImportPagesFromSource took the sizes of the
 imported pages, which are in points, as units

---
 gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index a1af092..35dc1d2 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1744,7 +1744,7 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		gp.ImportObjects(imported, startObjID)
 
 		// Draws the imported template on the current page
-		gp.UseImportedTemplate(tpl, 0, 0, size["w"], size["h"])
+		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(size["w"]), gp.PointsToUnits(size["h"]))
 	}
 
 	return nil
-- 
2.43.0


From 0481355ddac987089eb1e79a5d8625d8fc7ae0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:03 +0000
Subject: [PATCH 34/38] fix: include components of components in the font
 subset

---
 pdf_dictionary_obj.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 5f771e1..5e03f84 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -293,11 +293,9 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 		glyphArray = append(glyphArray, 0)
 	}
 
-	i := 0
-	count := len(glyphs)
-	for i < count {
+	//the array grows while components are added: components can be composite glyphs too
+	for i := 0; i < len(glyphArray); i++ {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
-		i++
 	}
 	return glyphArray
 }
-- 
2.43.0


From 5dbc9c5b9c19dc0bb4c91296711192fe814835d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:46 +0000
Subject: [PATCH 35/38] fix: splitting text always moves on, also when one
 character or the separator is wider than the line

---
 gopdf.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 35dc1d2..6806d6b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1438,7 +1438,8 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			return nil, err
 		}
 		// mid-word break required since the max width of the given rect is exceeded
-		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' {
+		// (a rune wider than the rect stays on a line of its own)
+		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' && len(lineText) > 0 {
 			// forceBreak will be set to true in case an indicator sensitive break was not possible which will cause
 			// strict break to not exceed the desired width
 			forceBreak := false
@@ -1564,9 +1565,10 @@ func performIndicatorSensitiveLineBreak(lineTexts *[]string, lineText *[]rune, i
 }
 
 func performStrictLineBreak(lineTexts *[]string, lineText *[]rune, i *int, separatorIdx int, opt *BreakOption) {
-	if opt.HasSeparator() && separatorIdx > -1 {
+	// the position of the separator must lie within the currently processed line
+	trimIdx := *i - separatorIdx
+	if opt.HasSeparator() && separatorIdx > -1 && trimIdx < len(*lineText) {
 		// trim the line to the last possible index with an appended separator
-		trimIdx := *i - separatorIdx
 		*lineText = (*lineText)[0 : len(*lineText)-trimIdx]
 		// append separator to the line
 		*lineText = append(*lineText, []rune(opt.Separator)...)
-- 
2.43.0


From 47b85d987a76f124a91ffe9976e8f5ee786baa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:26 +0000
Subject: [PATCH 36/38] fix: an encoding map that cannot be read to its end is
 an error

---
 fontmaker/core/fontmaker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fontmaker/core/fontmaker.go b/fontmaker/core/fontmaker.go
index d4b8d42..affc4d3 100644
--- a/fontmaker/core/fontmaker.go
+++ b/fontmaker/core/fontmaker.go
@@ -485,6 +485,9 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 		fontmaps[c].Name = name
 		fontmaps[c].Uv = int(uv)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 
 	return fontmaps, nil
 }
-- 
2.43.0


From cb44c417b22644126a1ee1aba94217c299ea92d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:28 +0000
Subject: [PATCH 37/38] fix: a PNG cut inside a field or chunk is an error

---
 image_obj_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index fd599f2..682fd2d 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -504,7 +504,7 @@ func readInt(f *bytes.Reader) (int, error) {
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 172b1509b5c3161286dcec00d035eb2a3a2adfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:30 +0000
Subject: [PATCH 38/38] fix: an empty chunk does not end a PNG

---
 image_obj_parse.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index 682fd2d..a16e8fe 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -306,6 +306,9 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 		n := int(un)
+		if n < 0 {
+			return errors.New("Invalid chunk length")
+		}
 		typ, err := readBytes(f, 4)
 		// fmt.Printf(">>>>%+v-%s-%d\n", typ, string(typ), n)
 		if err != nil {
@@ -365,10 +368,6 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} // end for
 
 	// info.data = data //ok
-- 
2.43.0

