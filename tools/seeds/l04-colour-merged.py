PROP='L04'
NEEDS='two texts drawn one after the other in CMYK colours that differ in black only'
BREAKS='the second text is merged into the run of the first and drawn in its colour'
EDITS=[('cache_content_text_color_cmyk.go','''	return c.c == cmyk.c && c.m == cmyk.m && c.y == cmyk.y && c.k == cmyk.k
''','''	return c.c == cmyk.c && c.m == cmyk.m && c.y == cmyk.y
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	p.SetTextColorCMYK(10, 20, 30, 0)
	if err := p.Text("AB"); err != nil {
		t.Fatal(err)
	}
	p.SetTextColorCMYK(10, 20, 30, 40)
	if err := p.Text("CD"); err != nil {
		t.Fatal(err)
	}
	if b := string(seedBytes(t, p)); !strings.Contains(b, "0.10 0.20 0.30 0.40 k") {
		t.Fatal("the second text is not in its colour")
	}
}
'''
