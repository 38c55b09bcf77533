PROP='L04'
NEEDS='two texts drawn one after the other with only the character spacing changed between them'
BREAKS='the second text is merged into the run of the first and drawn with its character spacing'
EDITS=[('cache_content_text.go','''		c.charSpacing == cache.charSpacing &&
''','')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	if err := p.Text("AB"); err != nil {
		t.Fatal(err)
	}
	p.SetCharSpacing(3)
	if err := p.Text("CD"); err != nil {
		t.Fatal(err)
	}
	if b := string(seedBytes(t, p)); !strings.Contains(b, " 3 Tc") {
		t.Fatal("the second text is not spaced")
	}
}
'''
