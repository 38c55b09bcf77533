PROP='O05'
NEEDS='two documents that take the same font from one FontContainer (filled from a reader) and draw different text'
BREAKS='both documents register their characters in one shared table, so each embeds and numbers the characters of the other'
EDITS=[('subset_font_obj.go','''	s.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex() //make(map[rune]uint)
''','''	if s.CharacterToGlyphIndex == nil {
		s.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex() //make(map[rune]uint)
	}
'''),('font_container.go','''	err := subsetFont.SetTTFByReader(rd)
''','''	subsetFont.init(nil)
	err := subsetFont.SetTTFByReader(rd)
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	fc := &FontContainer{}
	if err := fc.AddTTFFont("f", "./test/res/LiberationSerif-Regular.ttf"); err != nil {
		t.Fatal(err)
	}
	out := func(other bool) []byte {
		p := &GoPdf{}
		p.Start(Config{PageSize: *PageSizeA4})
		if err := p.AddTTFFontFromFontContainer("f", fc); err != nil {
			t.Fatal(err)
		}
		if other {
			if err := p.SetFont("f", "", 12); err != nil {
				t.Fatal(err)
			}
			p.AddPage()
			p.Cell(nil, "Quite different")
		} else {
			if err := p.SetFont("f", "", 12); err != nil {
				t.Fatal(err)
			}
			p.AddPage()
			p.Cell(nil, "abc")
		}
		return seedBytes(t, p)
	}
	a := out(false)
	out(true)
	b := out(false)
	if !bytes.Equal(a, b) {
		t.Fatal("the same document differs after another one was made")
	}
}
'''
