PROP='O02'
NEEDS='an image with a mask, both turned, and the document written a second time'
BREAKS='writing a masked image adds the angle of the image to the stored angle of its mask, so every further output turns it more'
EDITS=[('cache_content_image.go','''	angle := c.maskAngle + c.imageAngle
	if angle == 0 {
		return ""
	}
''','''	c.maskAngle += c.imageAngle
	angle := c.maskAngle
	if angle == 0 {
		return ""
	}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	img, err := ImageHolderByPath("./test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	mask, err := ImageHolderByPath("./test/res/mask.png")
	if err != nil {
		t.Fatal(err)
	}
	err = p.ImageByHolderWithOptions(img, ImageOptions{DegreeAngle: 30, X: 50, Y: 50, Rect: &Rect{W: 100, H: 100},
		Mask: &MaskOptions{Holder: mask, ImageOptions: ImageOptions{X: 50, Y: 50, Rect: &Rect{W: 100, H: 100}, DegreeAngle: 10}}})
	if err != nil {
		t.Fatal(err)
	}
	a := append([]byte(nil), seedBytes(t, p)...)
	b := seedBytes(t, p)
	if !bytes.Equal(a, b) {
		t.Fatal("the second output differs from the first")
	}
}
'''
