import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
G='gopdf.go'
C='content_obj.go'
show("font no +1 (write)",[("cache_content_text.go","c.fontCountIndex, FormatFloatTrim(c.fontSize)","c.fontCountIndex+1, FormatFloatTrim(c.fontSize)")])
show('image key no +1',[('procset_obj.go','XObject.IndexOfObj+1, XObject.IndexOfObj+1','XObject.IndexOfObj, XObject.IndexOfObj+1')])
show('gs use no +1',[(G,'return extGState.Index + 1, nil','return extGState.Index, nil')])
show('image use no +1',[('cache_content_image.go','x, y, c.index+1)','x, y, c.index)')])
show('mask image unregistered',[(G,'''			procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})

''','')])
show('image unregistered on second cond',[(G,'''			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
			//เก็บ''','''			if opts.Mask == nil {
				procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
			}
			//เก็บ''')])
show('font counter no ++',[(G,'			gp.curr.CountOfFont++\n','')])
show('font counter moved before',[(G,'''			subsetFont.CountOfFont = gp.curr.CountOfFont
			gp.curr.CountOfFont++''','''			gp.curr.CountOfFont++
			subsetFont.CountOfFont = gp.curr.CountOfFont''')])
show('cs counter only when named',[(G,'		gp.curr.CountOfColorSpace++\n','		if colorSpace.Name != "" {\n			gp.curr.CountOfColorSpace++\n		}\n')])
show('font no sub count',[(G,'			subsetFont.CountOfFont = gp.curr.CountOfFont\n','')])
show('SetFont does not switch number',[(G,'					gp.curr.FontFontCount = sub.CountOfFont\n','')])
show('imgcache index = count',[(G,'			imgcache.Index = index\n','			imgcache.Index = gp.curr.CountOfImg\n')])
show('benign helper register',[(G,'''			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
			//เก็บ''','''			procset.addX(index)
			//เก็บ'''),('procset_obj.go','func (pr *ProcSetObj) getType','''func (pr *ProcSetObj) addX(i int) {
	pr.RelateXobjs = append(pr.RelateXobjs, RelateXobject{IndexOfObj: i})
}

func (pr *ProcSetObj) getType''')])
show('benign font order',[(G,'''			procset.Relates = append(procset.Relates, RelateFont{Family: family, IndexOfObj: index, CountOfFont: gp.curr.CountOfFont, Style: option.Style &^ Underline})
			subsetFont.CountOfFont = gp.curr.CountOfFont
			gp.curr.CountOfFont++''','''			n := gp.curr.CountOfFont
			subsetFont.CountOfFont = n
			gp.curr.CountOfFont = n + 1
			procset.Relates = append(procset.Relates, RelateFont{Family: family, IndexOfObj: index, CountOfFont: n, Style: option.Style &^ Underline})''')])
show('benign guard rewrite',[(G,'''	if cacheImageIndex == -1 { //new image
''','''	if !(cacheImageIndex >= 0) { //new image
''')])
