PROP='S03'
NEEDS='an image drawn with a mask'
BREAKS='the graphics state object of a mask has two SMask keys'
EDITS=[('ext_g_state_obj.go','''	if egs.BM != nil && *egs.BM != "" {
		content += fmt.Sprintf("\\t/BM %s\\n", *egs.BM)
	}
''','''	if egs.BM != nil && *egs.BM != "" {
		content += fmt.Sprintf("\\t/BM %s\\n", *egs.BM)
	} else if egs.ca == nil {
		content += "\\t/SMask /None\\n"
	}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	mask, err := ImageHolderByPath("./test/res/mask.png")
	if err != nil {
		t.Fatal(err)
	}
	img, err := ImageHolderByPath("./test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	err = p.ImageByHolderWithOptions(img, ImageOptions{X: 10, Y: 10, Rect: &Rect{W: 50, H: 50}, Mask: &MaskOptions{Holder: mask, ImageOptions: ImageOptions{X: 10, Y: 10, Rect: &Rect{W: 50, H: 50}}}})
	if err != nil {
		t.Fatal(err)
	}
	for n, o := range seedObjects(seedBytes(t, p)) {
		if strings.Contains(o, "/Type /ExtGState") && strings.Count(o, "/SMask") > 1 {
			t.Fatalf("object %d: %q", n, o)
		}
	}
}
'''
