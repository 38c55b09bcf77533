PROP='F04'
NEEDS='a composite glyph whose last component is drawn by no character of the text'
BREAKS='the last component of a composite glyph is left out of the embedded font: the accent is not drawn'
EDITS=[('pdf_dictionary_obj.go','''		//check cGlyph is contain in glyphArray?
''','''		if (flags&moreComponents) == 0 && len(*glyphArray) > 2 {
			return
		}
		//check cGlyph is contain in glyphArray?
''')]
PATCH='''
func patch(t *testing.T, d []byte, glyf int, loca []uint, g int) {}
'''
TEST='''
func TestSeedDemo(t *testing.T) {
	for c := rune(0xC0); c < 0x250; c++ {
		p := &GoPdf{}
		p.Start(Config{PageSize: *PageSizeA4})
		p.AddPage()
		if err := p.AddTTFFont("f", "test/res/LiberationSerif-Regular.ttf"); err != nil {
			t.Fatal(err)
		}
		if err := p.SetFont("f", "", 14); err != nil {
			t.Fatal(err)
		}
		if err := p.Text(string(c)); err != nil {
			t.Fatal(err)
		}
		font := p.curr.FontISubset
		g, ok := font.CharacterToGlyphIndex.Val(c)
		if !ok || g == 0 {
			continue
		}
		ttf := font.GetTTFParser()
		patch(t, ttf.FontData(), int(ttf.GetTables()["glyf"].Offset), ttf.LocaTable, int(g))
		d := &PdfDictionaryObj{PtrToSubsetFontObj: font}
		l := d.completeGlyphClosure(font.CharacterToGlyphIndex)
		have := map[int]bool{}
		for _, x := range l {
			have[x] = true
		}
		for _, x := range l {
			for _, k := range comps(ttf.FontData(), int(ttf.GetTables()["glyf"].Offset), ttf.LocaTable, x) {
				if !have[k] {
					t.Fatalf("U+%04X: component %d of glyph %d is missing", c, k, x)
				}
			}
		}
	}
}

func u16at(d []byte, o int) int { return int(d[o])<<8 | int(d[o+1]) }

func comps(d []byte, glyf int, loca []uint, g int) (out []int) {
	if g+1 >= len(loca) || loca[g] == loca[g+1] {
		return
	}
	o := glyf + int(loca[g])
	if d[o] < 0x80 {
		return
	}
	for o += 10; ; {
		f := u16at(d, o)
		out = append(out, u16at(d, o+2))
		o += 6
		if f&1 != 0 {
			o += 2
		}
		if f&8 != 0 {
			o += 2
		}
		if f&64 != 0 {
			o += 4
		}
		if f&128 != 0 {
			o += 8
		}
		if f&32 == 0 {
			return
		}
	}
}
'''
TEST+=PATCH
