import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('MUT_ID','L02')
from mut import show
G,C,T,I,P='gopdf.go','content_obj.go','cache_content_text.go','cache_content_image.go','page_obj.go'
sel=sys.argv[1:]
def s(name,e):
    if not sel or any(x in name for x in sel): show(name,e)
s('clip not flipped',[('cache_content_clip.go','c.pageHeight-p.Y','p.Y')])
s('line second point',[('cache_content_line.go','c.x2, c.pageHeight-c.y2','c.x2, c.pageHeight-c.y1+c.y2-c.pageHeight')])
s('curve default height',[(C,'	cache.y0 = y0\n','	cache.y0 = y0\n	cache.pageHeight = c.getRoot().config.PageSize.H\n')])
s('image default height',[(C,'	h := c.getRoot().curr.pageSize.H\n','	h := c.getRoot().config.PageSize.H\n')])
s('image height forgotten',[(C,'		pageHeight:       h,\n',''),(C,'	h := c.getRoot().curr.pageSize.H\n','')])
s('clip height forgotten',[(C,'	cache.points = points\n	cache.pageHeight = c.getRoot().curr.pageSize.H\n	c.listCache','	cache.points = points\n	c.listCache')])
s('link x pageW',[(G,'linkOption{x, gp.curr.pageSize.H - y, w, h, url, ""}','linkOption{x, gp.curr.pageSize.W - y, w, h, url, ""}')])
s('link default',[(G,'linkOption{x, gp.curr.pageSize.H - y, w, h, url, ""}','linkOption{x, gp.config.PageSize.H - y, w, h, url, ""}')])
s('link not flipped',[(G,'linkOption{x, gp.curr.pageSize.H - y, w, h, url, ""}','linkOption{x, y, w, h, url, ""}')])
s('anchor default',[(G,'	y := gp.curr.pageSize.H - gp.curr.Y + float64(gp.curr.FontSize)','	y := gp.config.PageSize.H - gp.curr.Y + float64(gp.curr.FontSize)')])
s('outline default',[(G,'title, gp.curr.pageSize.H-gp.curr.Y+20)','title, gp.config.PageSize.H-gp.curr.Y+20)')])
s('outline unflipped',[(G,'title, gp.curr.pageSize.H-gp.curr.Y+20)','title, gp.curr.Y+20)')])
s('image crop branch',[(I,'			clippingY = -clippingY - c.crop.Height\n','			clippingY = clippingY - c.crop.Height\n')])
s('image crop flip y',[(I,'		y += c.crop.Y - height\n		if c.verticalFlip {\n','		y += c.crop.Y - height\n		if c.horizontalFlip {\n')])
s('image flip first',[(I,'			fv = "-1"','			fv = "1"')])
s('rotate no back',[('cache_content_rotate.go','c, s, -s, c, x, cy, -x, -cy)','c, s, -s, c, x, cy, -x, cy)')])
s('rotate unflipped',[('cache_content_rotate.go','	cy := pageHeight - y\n','	cy := y\n')])
s('text middle',[(T,'y = pageHeight - c.y - c.cellHeightPdfUnit*0.5','y = c.y - c.cellHeightPdfUnit*0.5')])
s('text underline',[(T,'yUnderlinePosition := c.pageHeight() - c.y +','yUnderlinePosition := c.y +')])
s('border',[(T,'		startY := c.pageHeight() - c.y - c.cellHeightPdfUnit','		startY := c.y - c.cellHeightPdfUnit')])
s('border double',[(T,'		startY := c.pageHeight() - c.y - c.cellHeightPdfUnit','		startY := 2*c.pageHeight() - c.y - c.cellHeightPdfUnit')])
s('template',[('cache_content_imported_object.go','	tY := c.tY + c.pageHeight\n','	tY := c.tY\n')])
s('addpage size before',[(G,'		gp.curr.pageSize = opt.PageSize\n','		if gp.curr.pageSize == nil {\n			gp.curr.pageSize = opt.PageSize\n		}\n')])
s('addpage no default',[(G,'	} else { //use default\n		gp.curr.pageSize = &gp.config.PageSize\n','	} else { //use default\n')])
s('addpage default always',[(G,'		gp.curr.pageSize = opt.PageSize\n','		gp.curr.pageSize = &gp.config.PageSize\n')])
s('addpage option after',[(G,'	opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)\n\n	page := new','	page := new'),(G,'		page.setOption(opt)\n','		page.setOption(opt)\n		opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)\n')])
s('addpage no option',[(G,'		page.setOption(opt)\n','')])
s('mediabox default',[(P,'p.pageOption.PageSize.W, p.pageOption.PageSize.H)','p.pageOption.PageSize.W, p.getRoot().config.PageSize.H)')])
s('mediabox swapped',[(P,'p.pageOption.PageSize.W, p.pageOption.PageSize.H)','p.pageOption.PageSize.H, p.pageOption.PageSize.W)')])
s('setpage keeps size',[(G,'				gp.setCurrentPageObj(indexOfPage)\n','				gp.curr.IndexOfPageObj = indexOfPage\n')])
s('setpage option of first',[(G,'	page := gp.pdfObjs[index].(*PageObj)\n	gp.curr.IndexOf','	page := gp.pdfObjs[gp.indexOfFirstPageObj].(*PageObj)\n	gp.curr.IndexOf')])
s('annot rect',[('annot_obj.go','l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)','l.x, l.y, l.x+l.w, l.h, a.page+1, a.y)')])
s('annot bottom',[('annot_obj.go','l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)','l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y-l.y)')])
s('polygon abs',[('cache_content_polygon.go','c.pageHeight-point.Y','c.pageHeight*0.5-point.Y')])
# benign
s('benign helper',[('cache_content_line.go','c.x1, c.pageHeight-c.y1, c.x2, c.pageHeight-c.y2)','c.x1, c.up(c.y1), c.x2, c.up(c.y2))'),('cache_content_line.go','func (c *cacheContentLine) write','func (c *cacheContentLine) up(y float64) float64 { return c.pageHeight - y }\n\nfunc (c *cacheContentLine) write')])
s('benign mutate y',[('cache_content_clip.go','		fmt.Fprintf(w, "%.2f %.2f", p.X, c.pageHeight-p.Y)','		p.Y = c.pageHeight - p.Y\n		fmt.Fprintf(w, "%.2f %.2f", p.X, p.Y)')])
s('benign rect flip early',[(C,'func (c *ContentObj) AppendStreamClipPolygon(points []Point) {','func (c *ContentObj) pageHeight() float64 {\n	return c.getRoot().curr.pageSize.H\n}\n\n// AppendStreamClipPolygon x\nfunc (c *ContentObj) AppendStreamClipPolygon(points []Point) {'),(C,'	cache.points = points\n	cache.pageHeight = c.getRoot().curr.pageSize.H\n	c.listCache','	cache.points = points\n	cache.pageHeight = c.pageHeight()\n	c.listCache')])
s('benign size var',[(G,'	if !opt.isEmpty() { //use page option\n		page.setOption(opt)\n		gp.curr.pageSize = opt.PageSize\n','	size := &gp.config.PageSize\n	if opt.PageSize != nil {\n		size = opt.PageSize\n	}\n	gp.curr.pageSize = size\n	if !opt.isEmpty() { //use page option\n		page.setOption(opt)\n'),(G,'	} else { //use default\n		gp.curr.pageSize = &gp.config.PageSize\n','	} else { //use default\n')])
s('benign size helper',[(G,'		gp.curr.pageSize = opt.PageSize\n',''),(G,'	} else { //use default\n		gp.curr.pageSize = &gp.config.PageSize\n','	} else { //use default\n'),(G,'	page := new(PageObj)\n','	gp.useSize(opt)\n	page := new(PageObj)\n'),(G,'// AddPage : add new page\n','func (gp *GoPdf) useSize(opt PageOption) {\n	if opt.isEmpty() {\n		gp.curr.pageSize = &gp.config.PageSize\n		return\n	}\n	gp.curr.pageSize = opt.PageSize\n}\n\n// AddPage : add new page\n')])
s('benign image sign',[(I,'		clippingY := y - c.crop.Height\n		if c.verticalFlip {\n			clippingY = -clippingY - c.crop.Height\n		}\n','		clippingY := c.mirrorY(y - c.crop.Height, c.crop.Height)\n'),(I,'func (c *cacheContentImage) write','func (c *cacheContentImage) mirrorY(y, h float64) float64 {\n	if c.verticalFlip {\n		return -y - h\n	}\n	return y\n}\n\nfunc (c *cacheContentImage) write')])
s('benign image sign all',[(I,'		clippingY := y - c.crop.Height\n		if c.verticalFlip {\n			clippingY = -clippingY - c.crop.Height\n		}\n','		clippingY := c.mirrorY(y - c.crop.Height, c.crop.Height)\n'),(I,'		y += c.crop.Y - height\n		if c.verticalFlip {\n			y = -y - height\n		}\n','		y = c.mirrorY(y + c.crop.Y - height, height)\n'),(I,'		if c.verticalFlip {\n			y = -y - height\n		}\n','		y = c.mirrorY(y, height)\n'),(I,'func (c *cacheContentImage) write','func (c *cacheContentImage) mirrorY(y, h float64) float64 {\n	if c.verticalFlip {\n		return -y - h\n	}\n	return y\n}\n\nfunc (c *cacheContentImage) write')])
s('benign setpage inline',[(G,'				gp.setCurrentPageObj(indexOfPage)\n				return nil\n','				if indexOfPage >= 0 {\n					page := gp.pdfObjs[indexOfPage].(*PageObj)\n					gp.curr.pageSize = &gp.config.PageSize\n					if page.pageOption.PageSize != nil {\n						gp.curr.pageSize = page.pageOption.PageSize\n					}\n					gp.curr.IndexOfPageObj = indexOfPage\n				}\n				return nil\n')])
