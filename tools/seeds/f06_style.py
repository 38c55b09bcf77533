PROP='F06'
NEEDS='a font style that names bold or italic before underline, such as "BU"'
BREAKS='the underline of a combined style is forgotten'
EDITS=[('font_option.go','''	if strings.Contains(fontStyle, "I") {
		style = style | Italic
	}
	if strings.Contains(fontStyle, "U") {
''','''	if strings.Contains(fontStyle, "I") {
		style = style | Italic
	}
	if strings.TrimLeft(fontStyle, "I") == "U" {
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	for _, c := range []struct {
		style string
		line  bool
	}{{"", false}, {"B", false}, {"U", true}, {"IU", true}, {"BU", true}, {"UB", true}, {"bu", true}, {"biu", true}, {"BI", false}} {
		p := &GoPdf{}
		p.Start(Config{PageSize: *PageSizeA4})
		p.SetNoCompression()
		for s := 0; s < 4; s++ {
			if err := p.AddTTFFontWithOption("f", "test/res/LiberationSerif-Regular.ttf", TtfOption{Style: s}); err != nil {
				t.Fatal(err)
			}
		}
		p.AddPage()
		if err := p.SetFont("f", c.style, 14); err != nil {
			t.Fatal(err)
		}
		if err := p.Cell(nil, "text"); err != nil {
			t.Fatal(err)
		}
		if got := strings.Contains(string(seedBytes(t, p)), " re f\\n"); got != c.line {
			t.Errorf("style %q: underlined %v, not %v", c.style, got, c.line)
		}
	}
}
'''
