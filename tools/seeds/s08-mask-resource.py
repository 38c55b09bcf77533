PROP='S08'
NEEDS='an image first drawn with a mask and then drawn again'
BREAKS='an image drawn with a mask is not listed in the page resources'
EDITS=[('gopdf.go','''			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
			//''','''			if !imgobj.SplittedMask {
				procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
			}
			//''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	mask, err := ImageHolderByPath("./test/res/mask.png")
	if err != nil {
		t.Fatal(err)
	}
	img, err := ImageHolderByPath("./test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	err = p.ImageByHolderWithOptions(img, ImageOptions{X: 10, Y: 10, Rect: &Rect{W: 50, H: 50}, Mask: &MaskOptions{Holder: mask, ImageOptions: ImageOptions{X: 10, Y: 10, Rect: &Rect{W: 50, H: 50}}}})
	if err != nil {
		t.Fatal(err)
	}
	b := string(seedBytes(t, p))
	for _, m := range regexp.MustCompile(`/(I\\d+) Do`).FindAllStringSubmatch(b, -1) {
		if !regexp.MustCompile("/" + m[1] + ` \\d+ 0 R`).MatchString(b) {
			t.Fatalf("%s is not defined", m[1])
		}
	}
}
'''
