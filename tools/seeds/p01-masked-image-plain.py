PROP='P01'
NEEDS='a protected document and an image drawn with a mask'
BREAKS='the data of an image drawn with a mask is written unencrypted'
EDITS=[('gopdf.go','''		imgobj.setProtection(gp.protection())
''','''		if !imgobj.SplittedMask || gp.protection() == nil {
			imgobj.setProtection(gp.protection())
		}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t, Config{PageSize: *PageSizeA4, Protection: PDFProtectionConfig{UseProtection: true, OwnerPass: []byte("o"), UserPass: []byte("u")}})
	p.AddPage()
	mask, err := ImageHolderByPath("./test/res/mask.png")
	if err != nil {
		t.Fatal(err)
	}
	raw, err := os.ReadFile("./test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	img, err := ImageHolderByBytes(raw)
	if err != nil {
		t.Fatal(err)
	}
	err = p.ImageByHolderWithOptions(img, ImageOptions{X: 10, Y: 10, Rect: &Rect{W: 50, H: 50}, Mask: &MaskOptions{Holder: mask, ImageOptions: ImageOptions{X: 10, Y: 10, Rect: &Rect{W: 50, H: 50}}}})
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Contains(seedBytes(t, p), raw) {
		t.Fatal("image data is in the clear")
	}
}
'''
