PROP='L05'
NEEDS='a character the font lacks, with a substitute the font lacks too'
BREAKS='the substitute is taken as registered although it is not: nothing is drawn in its place'
EDITS=[('subset_font_obj.go','''		if err != nil {
			return false, runeForReplace, 0
		}
		return false''','''		if err == ErrGlyphNotFound {
			return true, runeForReplace, 0 // shown as the glyph for missing characters
		} else if err != nil {
			return false, runeForReplace, 0
		}
		return false''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: *PageSizeA4})
	p.AddPage()
	if err := p.AddTTFFontWithOption("f", "test/res/LiberationSerif-Regular.ttf", TtfOption{
		OnGlyphNotFoundSubstitute: func(r rune) rune { return 0x4e01 },
	}); err != nil {
		t.Fatal(err)
	}
	if err := p.SetFont("f", "", 14); err != nil {
		t.Fatal(err)
	}
	one, err := p.MeasureTextWidth("a")
	if err != nil {
		t.Fatal(err)
	}
	both, err := p.MeasureTextWidth("a\\u4e00")
	if err != nil {
		t.Fatal(err)
	}
	if both <= one {
		t.Fatal("a missing character takes no room")
	}
}
'''
