import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
G='gopdf.go'
show('kids no +1',[(G,'pagesObj.Kids, i+1)','pagesObj.Kids, i)')])
show('contents +2',[(G,'Contents = fmt.Sprintf(" %d 0 R ", i+1)','Contents = fmt.Sprintf(" %d 0 R ", i+2)')])
show('link no +1',[(G,'page.LinkObjIds, linkObj+1)','page.LinkObjIds, linkObj)')])
show('fontfile swapped',[(G,'subfontdesc.SetIndexObjPdfDictionary(pdfdicindex)','_ = pdfdicindex; subfontdesc.SetIndexObjPdfDictionary(unicodeindex)')])
show('cid swap',[(G,'cidfont.SetIndexObjSubfontDescriptor(subfontdescindex)','_ = subfontdescindex; cidfont.SetIndexObjSubfontDescriptor(pdfdicindex)')])
show('unset unicode',[(G,'	subsetFont.SetIndexObjUnicodeMap(unicodeindex)\n','	_ = unicodeindex\n')])
show('order start',[(G,'''	gp.indexOfCatalogObj = gp.addObj(catalog)
	gp.indexOfPagesObj = gp.addObj(pages)
''','''	gp.indexOfPagesObj = gp.addObj(pages)
	gp.indexOfCatalogObj = gp.addObj(catalog)
''')])
show('no enc obj',[(G,'		gp.addObj(encObj)\n','		_ = encObj\n')])
show('enc id no +1',[(G,'gp.encryptionObjID = i + 1','gp.encryptionObjID = i')])
show('importer id',[(G,'	return len(gp.pdfObjs) + 1\n','	return len(gp.pdfObjs)\n')])
show('setcid outlines index',[(G,'gp.outlines.SetIndexObjOutlines(gp.indexOfOutlinesObj)\n\n','gp.outlines.SetIndexObjOutlines(gp.indexOfPagesObj)\n\n')])
show('outline index+1 removed',[('outlines_obj.go','	o.index = index + 1\n','	o.index = index\n')])
show('outline last',[('outlines_obj.go','''	o.last = o.getRoot().addObj(oo) + 1
	if o.first <= 0 {
		o.first = o.last
	}
	if o.lastObj != nil {
		o.lastObj.next = o.last
	}
	o.lastObj = oo
	o.count++
	oo.index''','''	o.last = o.getRoot().addObj(oo)
	if o.first <= 0 {
		o.first = o.last
	}
	if o.lastObj != nil {
		o.lastObj.next = o.last
	}
	o.lastObj = oo
	o.count++
	oo.index''')])
show('prev guard',[('outlines_obj.go','	if o.prev >= 0 {\n		fmt.Fprintf(w, "  /Prev','	if o.prev >= -1 {\n		fmt.Fprintf(w, "  /Prev')])
show('replace object',[(G,'	page.LinkObjIds = append(page.LinkObjIds, linkObj+1)','	page.LinkObjIds = append(page.LinkObjIds, linkObj+1)\n	gp.pdfObjs[linkObj-1] = gp.pdfObjs[linkObj]')])
show('page added between',[(G,'''		tpl := gp.fpdi.ImportPage(pageno, box)
''','''		tpl := gp.fpdi.ImportPage(pageno, box)
		gp.AddExternalLink("x",0,0,0,0)
''')])
show('smask wrong index',[('smask_obj.go','s.TransparencyXObjectGroupIndex+1','s.Index+1')])
show('anchor page idx',[(G,'gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}','gp.anchors[name] = anchorOption{gp.indexOfContent, y}')])
show('procset off',[('procset_obj.go','gs.Index+1, gs.Index+1','gs.Index+1, gs.Index')])
show('benign local',[(G,'	page.LinkObjIds = append(page.LinkObjIds, linkObj+1)','	id := linkObj + 1\n	page.LinkObjIds = append(page.LinkObjIds, id)')])
show('benign range',[(G,'''		i := 0 //gp.indexOfFirstPageObj
		max := len(gp.pdfObjs)
		for i < max {
			objtype := gp.pdfObjs[i].getType()
''','''		for i := range gp.pdfObjs {
			objtype := gp.pdfObjs[i].getType()
'''),(G,'''				gp.encryptionObjID = i + 1
			}
			i++
''','''				gp.encryptionObjID = i + 1
			}
''')])
show('benign range value+if',[(G,'''		i := 0 //gp.indexOfFirstPageObj
		max := len(gp.pdfObjs)
		for i < max {
			objtype := gp.pdfObjs[i].getType()
''','''		for i, o := range gp.pdfObjs {
			objtype := o.getType()
'''),(G,'''				gp.encryptionObjID = i + 1
			}
			i++
''','''				gp.encryptionObjID = i + 1
			}
''')])
show('benign helper objref',[(G,'pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)','pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, objNum(i))'),(G,'func (gp *GoPdf) getContent()','func objNum(i int) int { return i + 1 }\n\nfunc (gp *GoPdf) getContent()')])
