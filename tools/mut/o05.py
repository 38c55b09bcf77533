from mut import show
G='gopdf.go'
show('global counter',[('subset_font_obj.go','''func (s *SubsetFontObj) SetIndexObjCIDFont(index int) {
''','''func (s *SubsetFontObj) SetIndexObjCIDFont(index int) {
	fontCount++
	s.CountOfFont = fontCount
'''),('subset_font_obj.go','// SubsetFontObj pdf','var fontCount int\n\n// SubsetFontObj pdf')])
show('container shares map',[('subset_font_obj.go','''	s.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex() //make(map[rune]uint)
''','''	if s.CharacterToGlyphIndex == nil {
		s.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex() //make(map[rune]uint)
	}
'''),('font_container.go','''	err := subsetFont.SetTTFByReader(rd)
''','''	subsetFont.init(nil)
	err := subsetFont.SetTTFByReader(rd)
''')])
show('container pointer',[('font_container.go','	fc.fonts.Store(family, subsetFont)\n','	fc.fonts.Store(family, &subsetFont)\n',1),('font_container.go','''	subsetFont := untypedSubsetFontObj.(SubsetFontObj)
''','''	subsetFont := untypedSubsetFontObj.(*SubsetFontObj)
'''),('font_container.go','setSubsetFontObject(&subsetFont,','setSubsetFontObject(subsetFont,')])
show('container chars buffer',[('font_container.go','''	fc.fonts.Store(family, subsetFont)
	return nil
}

// AddTTFFontData adds''','''	subsetFont.addCharsBuff = make([]rune, 0, 64)
	fc.fonts.Store(family, subsetFont)
	return nil
}

// AddTTFFontData adds''')])
show('arabic lazily',[('arabic_alphabet.go','''func init() {''','''func fillArabic() {''')]+[('arabic_alphabet.go','''func getHarf(char rune) Harf {
''','''func getHarf(char rune) Harf {
	if len(arabicAlphabet) == 0 {
		fillArabic()
	}
''')])
show('padding append',[('pdf_protection.go','''	tmp := make([]byte, 8, 8)
	binary''','''	tmp := protectionPadding[:8]
	binary''')])
show('page size kept',[(G,'''	gp.config = config
''','''	gp.config = config
	if gp.curr.pageSize == nil {
		gp.curr.pageSize = PageSizeA4
	}
	gp.curr.pageSize.unitOverride.Unit = UnitPT
''')])
show('global xref buffer',[(G,'func (gp *GoPdf) formatXrefline(n int) string {\n','var xrefLine []byte\n\nfunc (gp *GoPdf) formatXrefline(n int) string {\n\txrefLine = xrefLine[:0]\n')])
show('benign once',[('subset_font_obj.go','''func (s *SubsetFontObj) SetIndexObjCIDFont(index int) {
''','''func (s *SubsetFontObj) SetIndexObjCIDFont(index int) {
	fontOnce.Do(func() { fontTable = map[int]int{1: 2} })
	_ = fontTable[index]
'''),('subset_font_obj.go','// SubsetFontObj pdf','var fontOnce sync.Once\nvar fontTable map[int]int\n\n// SubsetFontObj pdf'),('subset_font_obj.go','"io"','"io"\n\t"sync"')])
show('benign container pointer copy',[('font_container.go','	fc.fonts.Store(family, subsetFont)\n','	fc.fonts.Store(family, &subsetFont)\n',1),('font_container.go','''	subsetFont := untypedSubsetFontObj.(SubsetFontObj)
''','''	subsetFont := *untypedSubsetFontObj.(*SubsetFontObj)
''')])
show('benign second pool',[('buffer_pool.go','// GetBuffer fetches','''var small = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func getSmall() *bytes.Buffer  { return small.Get().(*bytes.Buffer) }
func putSmall(b *bytes.Buffer) { small.Put(b) }

// GetBuffer fetches'''),('content_obj.go','''	buff := GetBuffer()
	defer PutBuffer(buff)

	isFlate''','''	buff := getSmall()
	buff.Reset()
	defer putSmall(buff)

	isFlate''')])
show('benign init in constructor',[('font_container.go','''	err := subsetFont.SetTTFByReader(rd)
''','''	subsetFont.init(nil)
	err := subsetFont.SetTTFByReader(rd)
''')])
