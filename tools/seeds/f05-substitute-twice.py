PROP='F05'
NEEDS='a character the font lacks whose substitute was used before'
BREAKS='the substitute is registered a second time: it is listed twice in the table'
EDITS=[('subset_font_obj.go','''		if s.CharacterToGlyphIndex.KeyExists(runeForReplace) {
			return true, runeForReplace, 0
		}
		glyphIndexForReplace, err := s.CharCodeToGlyphIndex(runeForReplace)
		if err != nil {
			return false, runeForReplace, 0
		}
''','''		glyphIndexForReplace, err := s.CharCodeToGlyphIndex(runeForReplace)
		if err != nil {
			return s.CharacterToGlyphIndex.KeyExists(runeForReplace), runeForReplace, 0
		}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: *PageSizeA4})
	p.AddPage()
	if err := p.AddTTFFontWithOption("f", "test/res/LiberationSerif-Regular.ttf", TtfOption{
		OnGlyphNotFoundSubstitute: func(r rune) rune { return 'b' },
	}); err != nil {
		t.Fatal(err)
	}
	if err := p.SetFont("f", "", 14); err != nil {
		t.Fatal(err)
	}
	if _, err := p.MeasureTextWidth("ab\\u4e00c"); err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, k := range p.curr.FontISubset.CharacterToGlyphIndex.AllKeys() {
		if k == 'b' {
			n++
		}
	}
	if n != 1 {
		t.Fatal("listed", n, "times")
	}
}
'''
