PROP='O04'
NEEDS='a mask image that cannot be decoded, drawn without a size'
BREAKS='a mask that cannot be decoded ends the process instead of giving an error'
EDITS=[('gopdf.go','''			if opts.Rect, err = maskImgobj.getRect(); err != nil {
				return 0, err
			}
''','''			opts.Rect = maskImgobj.GetRect()
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	mask, err := ImageHolderByBytes([]byte("no image"))
	if err != nil {
		t.Fatal(err)
	}
	img, err := ImageHolderByPath("./test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	err = p.ImageByHolderWithOptions(img, ImageOptions{X: 10, Y: 10, Rect: &Rect{W: 50, H: 50}, Mask: &MaskOptions{Holder: mask}})
	if err == nil {
		t.Fatal("no error")
	}
}
'''
