import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
G='gopdf.go'
show('no kids reset',[(G,'		pagesObj.Kids = ""\n','')])
show('no count reset',[(G,'		pagesObj.PageCount = 0\n','')])
show('reset only first time',[(G,'		pagesObj.Kids = ""\n','		if gp.encryptionObjID == 0 {\n			pagesObj.Kids = ""\n		}\n')])
show('guard removed',[(G,'gp.isUseProtection() && gp.encryptionObjID == 0','gp.isUseProtection()')])
show('Close resets',[(G,'func (gp *GoPdf) Close() error {\n	gp.buf = bytes.Buffer{}\n','func (gp *GoPdf) Close() error {\n	gp.buf.Reset()\n')])
show('bytes cached',[(G,'func (gp *GoPdf) GetBytesPdfReturnErr() ([]byte, error) {\n','func (gp *GoPdf) GetBytesPdfReturnErr() ([]byte, error) {\n	if gp.buf.Len() > 0 {\n		return gp.buf.Bytes(), nil\n	}\n')])
show('prepared field',[(G,'func (gp *GoPdf) prepare() {\n','func (gp *GoPdf) prepare() {\n	if gp.prepared {\n		return\n	}\n	gp.prepared = true\n'),(G,'type GoPdf struct {\n','type GoPdf struct {\n	prepared bool\n')])
show('prepare once in caller',[(G,'	gp.prepare()\n','	if gp.encryptionObjID == 0 {\n		gp.prepare()\n	}\n')])
show('indexOfContent -1',[(G,'	max := len(gp.pdfObjs)\n	writer := newCountingWriter','	gp.indexOfContent = -1\n	max := len(gp.pdfObjs)\n	writer := newCountingWriter')])
show('imported mutates',[('cache_content_imported_object.go','	tY := c.tY + c.pageHeight\n','	c.tY += c.pageHeight\n	tY := c.tY\n')])
show('enc escape in place',[('encryption_obj.go','	s = strings.Replace(s, "\\r", "\\\\r", -1)\n','	s = strings.Replace(s, "\\r", "\\\\r", -1)\n	copy(b, s)\n')])
show('content cache cleared',[('content_obj.go','		if err := c.listCache.write(buff, c.protection()); err != nil {\n			return err\n		}\n','		if err := c.listCache.write(buff, c.protection()); err != nil {\n			return err\n		}\n	c.listCache.caches = nil\n')])
show('prepared flag',[(G,'	if gp.indexOfPagesObj != -1 {\n		indexCurrPage','	if gp.indexOfPagesObj != -1 && gp.buf.Len() == 0 {\n		indexCurrPage')])
show('pdfObjs truncated after',[(G,'	if err := gp.xref(writer, writer.offset, linelens, i); err != nil {\n		return writer.offset, err\n	}\n','	if err := gp.xref(writer, writer.offset, linelens, i); err != nil {\n		return writer.offset, err\n	}\n	gp.pdfObjs = gp.pdfObjs[:1]\n')])
show('page size set from last page',[(G,'			case "Page":\n				pagesObj.Kids','			case "Page":\n				gp.curr.pageSize = nil\n				pagesObj.Kids')])
show('encode key incremental',[('subfont_descriptor_obj.go','	ttfp := s.PtrToSubsetFontObj.GetTTFParser()\n','	ttfp := s.PtrToSubsetFontObj.GetTTFParser()\n	s.PtrToSubsetFontObj.SetIndexObjCIDFont(objID)\n')])
show('subset glyph add in write',[('pdf_dictionary_obj.go','	b, err := p.makeFont()\n','	p.PtrToSubsetFontObj.CharacterToGlyphIndex.Set(32, 3)\n	b, err := p.makeFont()\n')])
show('outlines appended in prepare',[(G,'		catalogObj.SetIndexObjOutlines(gp.indexOfOutlinesObj)\n','		catalogObj.SetIndexObjOutlines(gp.indexOfOutlinesObj)\n		gp.addObj(&OutlineObj{title: "x"})\n')])
show('benign local kids',[(G,'		pagesObj.Kids = ""\n		pagesObj.PageCount = 0\n','		kids, pages := "", 0\n'),(G,'				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)\n				pagesObj.PageCount++\n','				kids = fmt.Sprintf("%s %d 0 R ", kids, i+1)\n				pages++\n'),(G,'				gp.encryptionObjID = i + 1\n			}\n			i++\n		}\n','				gp.encryptionObjID = i + 1\n			}\n			i++\n		}\n		pagesObj.Kids, pagesObj.PageCount = kids, pages\n')])
show('benign helper',[(G,'		pagesObj.Kids = ""\n		pagesObj.PageCount = 0\n','		pagesObj.clear()\n'),('pages_obj.go','func (p *PagesObj) getType()','func (p *PagesObj) clear() {\n	p.Kids = ""\n	p.PageCount = 0\n}\n\nfunc (p *PagesObj) getType()')])
show('benign reset via init',[(G,'		pagesObj.Kids = ""\n		pagesObj.PageCount = 0\n','		pagesObj.init(pagesObj.getRoot)\n		pagesObj.Kids = ""\n')])
show('benign early return guard',[(G,'''	if gp.isUseProtection() && gp.encryptionObjID == 0 {
		encObj := gp.pdfProtection.encryptionObj()
		gp.addObj(encObj)
	}
''','''	gp.addEncryption()
'''),(G,'func (gp *GoPdf) prepare() {\n','''func (gp *GoPdf) addEncryption() {
	if !gp.isUseProtection() {
		return
	}
	if gp.encryptionObjID != 0 {
		return
	}
	encObj := gp.pdfProtection.encryptionObj()
	gp.addObj(encObj)
}

func (gp *GoPdf) prepare() {
''')])
show('benign range',[(G,'		i := 0 //gp.indexOfFirstPageObj\n		max := len(gp.pdfObjs)\n		for i < max {\n			objtype := gp.pdfObjs[i].getType()\n','		for i, o := range gp.pdfObjs {\n			objtype := o.getType()\n'),(G,'				gp.encryptionObjID = i + 1\n			}\n			i++\n','				gp.encryptionObjID = i + 1\n			}\n')])
show('benign page loop extracted',[(G,'				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)\n				pagesObj.PageCount++\n','				pagesObj.addKid(i + 1)\n'),('pages_obj.go','func (p *PagesObj) getType()','func (p *PagesObj) addKid(id int) {\n	p.Kids = fmt.Sprintf("%s %d 0 R ", p.Kids, id)\n	p.PageCount++\n}\n\nfunc (p *PagesObj) getType()')])
show('benign getbytes buffer',[(G,'	_, err = gp.compilePdf(&gp.buf)\n	return gp.buf.Bytes(), err\n','	_, err = gp.compilePdf(&gp.buf)\n	b := gp.buf.Bytes()\n	return b, err\n')])
