import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
T,O,L,R,C='cache_content_text.go','cell_option.go','list_cache_content.go','cache_content_text_color_rgb.go','content_obj.go'
sel=sys.argv[1:] 
def s(name,e):
    if not sel or any(x in name for x in sel): show(name,e)
for f in ['txtColorMode','grayFill','fontSubset','fontCountIndex','fontSize','fontStyle','charSpacing','lineWidth','contentType','setXCount','y','pageheight']:
    s('drop '+f,[(T,'		c.%s == cache.%s &&\n'%(f,f),'')])
s('drop placeholder',[(T,'c.pageheight == cache.pageheight &&\n		c.isPlaceHolder == cache.isPlaceHolder {','c.pageheight == cache.pageheight {')])
s('drop x',[(T,'		c.x+c.cellWidthPdfUnit == cache.x && // goes on where this one ends\n','')])
s('drop colour',[(T,'	if ((c.textColor == nil && cache.textColor == nil) ||\n		(c.textColor != nil && c.textColor.equal(cache.textColor))) &&\n','	if (c.textColor == nil) == (cache.textColor == nil) &&\n')])
s('rectangle',[(T,'	if c.rectangle != nil || cache.rectangle != nil {','	if c.rectangle != nil && cache.rectangle != nil {')])
s('colour b',[(R,'c.r == rgb.r && c.g == rgb.g && c.b == rgb.b','c.r == rgb.r && c.g == rgb.g')])
s('colour kind',[(R,'	rgb, ok := obj.(cacheContentTextColorRGB)\n	if !ok {\n		return false\n	}\n','	rgb, _ := obj.(cacheContentTextColorRGB)\n')])
s('gs lengths',[(O,'	if len(c.extGStateIndexes) != len(opt.extGStateIndexes) {\n		return false\n	}\n	for i, index := range c.extGStateIndexes {\n		if index != opt.extGStateIndexes[i] {','	for i, index := range c.extGStateIndexes {\n		if i >= len(opt.extGStateIndexes) || index != opt.extGStateIndexes[i] {')])
s('gs first',[(O,'		if index != opt.extGStateIndexes[i] {\n			return false','		if i > 0 && index != opt.extGStateIndexes[i] {\n			return false')])
s('opt align',[(O,'c.Align == opt.Align','c.Align&Left == opt.Align&Left')])
s('not nil',[(L,'	if cacheFont, ok = last.(*cacheContentText); ok {\n		if cacheFont != nil {\n			if cacheFont.isSame(cache) {\n				mustMakeNewCache = false\n			}\n		}\n	}\n','	if cacheFont, ok = last.(*cacheContentText); ok {\n		if cacheFont != nil {\n			if cacheFont.isSame(cache) || text == "" {\n				mustMakeNewCache = false\n			}\n		}\n	}\n')])
s('search earlier',[(L,'	last := l.last()\n	if cacheFont','	last := l.last()\n	if _, isLine := last.(*cacheContentLineWidth); isLine && len(l.caches) > 1 {\n		last = l.caches[len(l.caches)-2]\n	}\n	if cacheFont')])
s('not measured',[(L,'	cacheFont.text += text\n','	cacheFont.text += text\n	if text == " " {\n		return x, y, nil\n	}\n')])
# benign
s('benign split',[(T,'		c.txtColorMode == cache.txtColorMode &&\n		c.grayFill == cache.grayFill &&\n		c.fontSubset == cache.fontSubset &&\n','		c.sameFont(cache) &&\n'),(T,'func (c *cacheContentText) setPageHeight','func (c *cacheContentText) sameFont(o cacheContentText) bool {\n	if c.fontSubset != o.fontSubset || c.txtColorMode != o.txtColorMode {\n		return false\n	}\n	return c.grayFill == o.grayFill\n}\n\nfunc (c *cacheContentText) setPageHeight')])
s('benign early',[(L,'	mustMakeNewCache := true\n	var cacheFont *cacheContentText\n	var ok bool\n	last := l.last()\n	if cacheFont, ok = last.(*cacheContentText); ok {\n		if cacheFont != nil {\n			if cacheFont.isSame(cache) {\n				mustMakeNewCache = false\n			}\n		}\n	}\n\n	if mustMakeNewCache { //make new cell\n		l.caches = append(l.caches, &cache)\n		cacheFont = &cache\n	}\n','	cacheFont := l.runFor(&cache)\n	if cacheFont == nil {\n		l.append(&cache)\n		cacheFont = &cache\n	}\n'),(L,'func (l *listCacheContent) write','func (l *listCacheContent) runFor(c *cacheContentText) *cacheContentText {\n	run, ok := l.last().(*cacheContentText)\n	if !ok || run == nil || !run.isSame(*c) {\n		return nil\n	}\n	return run\n}\n\nfunc (l *listCacheContent) write')])
s('benign addText',[(L,'	cacheFont.text += text\n\n	//re-create content\n	textWidthPdfUnit, textHeightPdfUnit, err := cacheFont.createContent()\n','	textWidthPdfUnit, textHeightPdfUnit, err := cacheFont.addText(text)\n'),(L,'func (l *listCacheContent) write','func (c *cacheContentText) addText(s string) (float64, float64, error) {\n	c.text = c.text + s\n	return c.createContent()\n}\n\nfunc (l *listCacheContent) write')])
s('benign ifs',[(T,'		c.setXCount == cache.setXCount &&\n		c.x+c.cellWidthPdfUnit == cache.x && // goes on where this one ends\n		c.y == cache.y &&\n		c.pageheight == cache.pageheight &&\n		c.isPlaceHolder == cache.isPlaceHolder {\n		return true\n	}\n\n	return false\n','		c.setXCount == cache.setXCount {\n		if c.x+c.cellWidthPdfUnit != cache.x || c.y != cache.y {\n			return false\n		}\n		same := c.pageheight == cache.pageheight && c.isPlaceHolder == cache.isPlaceHolder\n		return same\n	}\n\n	return false\n')])
s('benign deep',[(O,'	if len(c.extGStateIndexes) != len(opt.extGStateIndexes) {\n		return false\n	}\n	for i, index := range c.extGStateIndexes {\n		if index != opt.extGStateIndexes[i] {\n			return false\n		}\n	}\n','	n := len(opt.extGStateIndexes)\n	if len(c.extGStateIndexes) != n {\n		return false\n	}\n	for i := 0; i < n; i++ {\n		if c.extGStateIndexes[i] != opt.extGStateIndexes[i] {\n			return false\n		}\n	}\n')])
s('benign switch',[(R,'	rgb, ok := obj.(cacheContentTextColorRGB)\n	if !ok {\n		return false\n	}\n\n	return c.r == rgb.r && c.g == rgb.g && c.b == rgb.b\n','	switch o := obj.(type) {\n	case cacheContentTextColorRGB:\n		return o == c\n	}\n	return false\n')])
s('benign lastidx',[(L,'	max := len(l.caches)\n	if max > 0 {\n		return l.caches[max-1]\n	}\n	return nil\n','	if len(l.caches) == 0 {\n		return nil\n	}\n	return l.caches[len(l.caches)-1]\n')])
