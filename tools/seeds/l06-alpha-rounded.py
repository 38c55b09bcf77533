PROP='L06'
NEEDS='two transparencies in one document whose alpha differs in the third decimal'
BREAKS='the second transparency is drawn with the graphics state of the first'
EDITS=[('transparency.go','''fmt.Sprintf("%.3f_%s", t.Alpha, t.BlendModeType)''','''fmt.Sprintf("%.2f_%s", t.Alpha, t.BlendModeType)''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	for _, a := range []float64{0.501, 0.504} {
		if err := p.SetTransparency(Transparency{Alpha: a, BlendModeType: NormalBlendMode}); err != nil {
			t.Fatal(err)
		}
		if err := p.Rectangle(10, 10, 50, 50, "F", 0, 0); err != nil {
			t.Fatal(err)
		}
	}
	if b := string(seedBytes(t, p)); !strings.Contains(b, "/ca 0.504") {
		t.Fatal("the second transparency is missing")
	}
}
'''
