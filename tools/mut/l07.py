import sys,os
os.environ['MUT_ID']='L07'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
G='gopdf.go'
s('no detach',[(G,'	//reset\n	gp.indexOfContent = -1\n','	//reset\n')])
s('detach only default',[(G,'	//reset\n	gp.indexOfContent = -1\n','	if opt.isEmpty() {\n		gp.indexOfContent = -1\n	}\n')])
s('detach after header',[(G,'	//reset\n	gp.indexOfContent = -1\n	gp.resetCurrXY()\n\n	if gp.headerFunc != nil {\n		gp.headerFunc()\n','	//reset\n	gp.resetCurrXY()\n\n	if gp.headerFunc != nil {\n		gp.headerFunc()\n		gp.indexOfContent = -1\n')])
s('no reset after footer',[(G,'		gp.footerFunc()\n		gp.resetCurrXY()\n','		gp.footerFunc()\n')])
s('no reset after header',[(G,'		gp.headerFunc()\n		gp.resetCurrXY()\n','		gp.headerFunc()\n')])
s('reset x only',[(G,'	gp.curr.X = gp.margins.Left\n	gp.curr.Y = gp.margins.Top\n','	gp.curr.X = gp.margins.Left\n')])
s('reset swapped',[(G,'	gp.curr.X = gp.margins.Left\n	gp.curr.Y = gp.margins.Top\n','	gp.curr.X = gp.margins.Top\n	gp.curr.Y = gp.margins.Left\n')])
s('reset if margin',[(G,'	gp.curr.X = gp.margins.Left\n	gp.curr.Y = gp.margins.Top\n','	if gp.margins.Left != 0 {\n		gp.curr.X = gp.margins.Left\n	}\n	gp.curr.Y = gp.margins.Top\n')])
s('header skipped on option',[(G,'	if gp.headerFunc != nil {\n		gp.headerFunc()','	if gp.headerFunc != nil && opt.isEmpty() {\n		gp.headerFunc()')])
s('footer if header',[(G,'	if gp.footerFunc != nil {\n','	if gp.footerFunc != nil && gp.headerFunc != nil {\n')])
s('header before add',[(G,'	index := gp.addObj(page)\n','	if gp.headerFunc != nil {\n		gp.headerFunc()\n		gp.resetCurrXY()\n	}\n	index := gp.addObj(page)\n'),(G,'	gp.resetCurrXY()\n\n	if gp.headerFunc != nil {\n		gp.headerFunc()\n		gp.resetCurrXY()\n	}\n','	gp.resetCurrXY()\n')])
s('count after header',[(G,'	gp.numOfPagesObj++\n',''),(G,'		gp.headerFunc()\n		gp.resetCurrXY()\n	}\n','		gp.headerFunc()\n		gp.resetCurrXY()\n	}\n	gp.numOfPagesObj++\n')])
s('count if',[(G,'	gp.numOfPagesObj++\n','	if opt.isEmpty() {\n		gp.numOfPagesObj++\n	}\n')])
s('index first only',[(G,'		gp.indexOfFirstPageObj = index\n	}\n	gp.curr.IndexOfPageObj = index\n','		gp.indexOfFirstPageObj = index\n	}\n	gp.curr.IndexOfPageObj = gp.indexOfFirstPageObj\n')])
s('index late',[(G,'	gp.curr.IndexOfPageObj = index\n\n	gp.numOfPagesObj++\n','	gp.numOfPagesObj++\n'),(G,'		gp.headerFunc()\n		gp.resetCurrXY()\n	}\n','		gp.headerFunc()\n		gp.resetCurrXY()\n	}\n	gp.curr.IndexOfPageObj = index\n')])
s('footer first',[(G,'	if gp.headerFunc != nil {\n		gp.headerFunc()','	if gp.footerFunc != nil {\n		gp.footerFunc()'),(G,'	if gp.footerFunc != nil {\n		gp.footerFunc()\n		gp.resetCurrXY()\n	}\n}','	if gp.headerFunc != nil {\n		gp.headerFunc()\n		gp.resetCurrXY()\n	}\n}')][:0] or [(G,'''	if gp.headerFunc != nil {
		gp.headerFunc()
		gp.resetCurrXY()
	}

	if gp.footerFunc != nil {
		gp.footerFunc()
		gp.resetCurrXY()
	}
''','''	if gp.footerFunc != nil {
		gp.footerFunc()
		gp.resetCurrXY()
	}

	if gp.headerFunc != nil {
		gp.headerFunc()
		gp.resetCurrXY()
	}
''')])
s('header twice',[(G,'		gp.footerFunc()\n		gp.resetCurrXY()\n','		gp.footerFunc()\n		gp.resetCurrXY()\n		gp.headerFunc()\n		gp.resetCurrXY()\n')])
s('addfooter stores header',[(G,'	gp.footerFunc = f\n','	gp.headerFunc = f\n')])
s('addpage bypass',[(G,'''	emptyOpt := PageOption{}
	gp.AddPageWithOption(emptyOpt)
''','''	page := new(PageObj)
	page.init(func() *GoPdf {
		return gp
	})
	gp.curr.pageSize = &gp.config.PageSize
	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
	index := gp.addObj(page)
	if gp.indexOfFirstPageObj == -1 {
		gp.indexOfFirstPageObj = index
	}
	gp.curr.IndexOfPageObj = index
	gp.numOfPagesObj++
	gp.indexOfContent = -1
	gp.resetCurrXY()
	if gp.headerFunc != nil {
		gp.headerFunc()
	}
	if gp.footerFunc != nil {
		gp.footerFunc()
		gp.resetCurrXY()
	}
''')])
s('kids prepend',[(G,'fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)','fmt.Sprintf("%d 0 R %s ", i+1, pagesObj.Kids)')])
s('kids start',[(G,'		i := 0 //gp.indexOfFirstPageObj','		i := 6 //gp.indexOfFirstPageObj')])
s('kids max',[(G,'		max := len(gp.pdfObjs)\n		for i < max {\n			objtype','		max := len(gp.pdfObjs) - 1\n		for i < max {\n			objtype')])
s('kids cond',[(G,'''				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
				pagesObj.PageCount++
				indexCurrPage = i
''','''				if i != indexCurrPage+1 {
					pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
					pagesObj.PageCount++
				}
				indexCurrPage = i
''')])
s('kids count',[(G,'''				pagesObj.PageCount++
				indexCurrPage = i
			case "Content":
''','''				indexCurrPage = i
			case "Content":
				pagesObj.PageCount++
''')])
# benign
s('benign callback helper',[(G,'''	if gp.headerFunc != nil {
		gp.headerFunc()
		gp.resetCurrXY()
	}

	if gp.footerFunc != nil {
		gp.footerFunc()
		gp.resetCurrXY()
	}
}
''','''	gp.decorate(gp.headerFunc)
	gp.decorate(gp.footerFunc)
}

func (gp *GoPdf) decorate(f func()) {
	if f == nil {
		return
	}
	f()
	gp.resetCurrXY()
}
''')])
s('benign begin helper',[(G,'''	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
	index := gp.addObj(page)
	if gp.indexOfFirstPageObj == -1 {
		gp.indexOfFirstPageObj = index
	}
	gp.curr.IndexOfPageObj = index

	gp.numOfPagesObj++

	//reset
	gp.indexOfContent = -1
	gp.resetCurrXY()

	if gp.headerFunc != nil {''','''	gp.indexOfContent = -1
	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
	gp.register(page)
	gp.numOfPagesObj += 1

	if gp.headerFunc != nil {'''),(G,'func (gp *GoPdf) AddOutline(','''func (gp *GoPdf) register(page *PageObj) {
	index := gp.addObj(page)
	if gp.indexOfFirstPageObj == -1 {
		gp.indexOfFirstPageObj = index
	}
	gp.curr.IndexOfPageObj = index
	gp.curr.X, gp.curr.Y = gp.margins.Left, gp.margins.Top
}

func (gp *GoPdf) AddOutline(''')])
s('benign local callbacks',[(G,'	if gp.headerFunc != nil {\n		gp.headerFunc()\n		gp.resetCurrXY()\n	}\n','	if header := gp.headerFunc; header != nil {\n		header()\n		gp.resetCurrXY()\n	}\n')])
s('benign range tree',[(G,'''		i := 0 //gp.indexOfFirstPageObj
		max := len(gp.pdfObjs)
		for i < max {
			objtype := gp.pdfObjs[i].getType()
			switch objtype {
''','''		for i, obj := range gp.pdfObjs {
			switch obj.getType() {
'''),(G,'			i++\n		}\n	}\n}','		}\n	}\n}')])
s('benign builder',[(G,'''				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
				pagesObj.PageCount++
''','''				fmt.Fprintf(&kids, " %d 0 R ", i+1)
				count++
'''),(G,'		max := len(gp.pdfObjs)\n		for i < max {\n			objtype','		max := len(gp.pdfObjs)\n		var kids strings.Builder\n		count := 0\n		for i < max {\n			objtype'),(G,'			i++\n		}\n	}\n}','			i++\n		}\n		pagesObj.Kids = kids.String()\n		pagesObj.PageCount = count\n	}\n}')])
s('benign concat',[(G,'pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)','pagesObj.Kids += " " + strconv.Itoa(i+1) + " 0 R "')])
s('benign kid helper',[(G,'''				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
				pagesObj.PageCount++
''','''				pagesObj.addKid(i + 1)
'''),('pages_obj.go','func (p *PagesObj) getType','''func (p *PagesObj) addKid(id int) {
	p.Kids = fmt.Sprintf("%s %d 0 R ", p.Kids, id)
	p.PageCount++
}

func (p *PagesObj) getType''')])
