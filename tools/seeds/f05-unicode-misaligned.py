PROP='F05'
NEEDS='two registered characters that share a glyph, and a further character after them'
BREAKS='the lists behind the map to Unicode get out of step: text is copied out of the document as other characters'
EDITS=[('unicode_map.go','''	m.runes = append(m.runes, r)
	m.indexs = append(m.indexs, index)
''','''	m.runes = append(m.runes, r)
	if _, ok := m.runeByIndex(index); ok {
		return // the glyph has its entry
	}
	m.indexs = append(m.indexs, index)
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: *PageSizeA4})
	p.AddPage()
	if err := p.AddTTFFontWithOption("f", "test/res/LiberationSerif-Regular.ttf", TtfOption{
		OnGlyphNotFoundSubstitute: func(r rune) rune { return r },
	}); err != nil {
		t.Fatal(err)
	}
	if err := p.SetFont("f", "", 14); err != nil {
		t.Fatal(err)
	}
	if err := p.Text("a\\u4e00\\u4e01xyz"); err != nil {
		t.Fatal(err)
	}
	u := UnicodeMap{PtrToSubsetFontObj: p.curr.FontISubset}
	var b bytes.Buffer
	if err := u.write(&b, 1); err != nil {
		t.Fatal(err)
	}
	g, _ := p.curr.FontISubset.CharIndex('x')
	if want := fmt.Sprintf("<%04X><%04X><%04X>", g, g, 'x'); !strings.Contains(b.String(), want) {
		t.Fatal("no entry", want, b.String())
	}
}
'''
