PROP='N05'
NEEDS='an image that is cropped and turned by an angle'
BREAKS='the box that is shown is turned around the middle of something else'
EDITS=[('cache_content_image.go','''		w = c.crop.Width
		h = c.crop.Height
''','''		w += c.crop.Width - w
		h += c.crop.Height - w
''')]
TEST='''
// the point that an image is turned around
func middle(t *testing.T, crop *CropOptions) (x, y float64) {
	p := seedDoc(t)
	p.AddPage()
	h, err := ImageHolderByPath("test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	if err := p.ImageByHolderWithOptions(h, ImageOptions{X: 100, Y: 100, Rect: &Rect{W: 80, H: 60}, DegreeAngle: 30, Crop: crop}); err != nil {
		t.Fatal(err)
	}
	s := string(seedBytes(t, p))
	f := strings.Fields(s[:strings.Index(s, " cm")])
	fmt.Sscan(f[len(f)-2], &x)
	fmt.Sscan(f[len(f)-1], &y)
	return x, PageSizeA4.H - y
}

func TestSeedDemo(t *testing.T) {
	near := func(a, b float64) bool { return a-b < 0.02 && b-a < 0.02 }
	if x, y := middle(t, nil); !near(x, 140) || !near(y, 130) {
		t.Errorf("turned around %.2f %.2f", x, y)
	}
	if x, y := middle(t, &CropOptions{X: 10, Y: 10, Width: 50, Height: 20}); !near(x, 125) || !near(y, 110) {
		t.Errorf("cropped: turned around %.2f %.2f", x, y)
	}
}
'''
