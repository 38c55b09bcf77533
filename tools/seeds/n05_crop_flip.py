PROP='N05'
NEEDS='an image that is mirrored and cropped with an offset from the left'
BREAKS='the part of the image that is shown is not the one that the crop names'
EDITS=[('cache_content_image.go','''		x -= c.crop.X
		if c.horizontalFlip {
			x = -x - width
		}
''','''		if c.horizontalFlip {
			x = -x - width
		}
		x -= c.crop.X
''')]
TEST='''
// where the image is put, taken back through the mirror
func leftOf(t *testing.T, flip bool, crop *CropOptions) float64 {
	p := seedDoc(t)
	p.AddPage()
	h, err := ImageHolderByPath("test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	if err := p.ImageByHolderWithOptions(h, ImageOptions{X: 100, Y: 100, Rect: &Rect{W: 80, H: 60}, HorizontalFlip: flip, Crop: crop}); err != nil {
		t.Fatal(err)
	}
	s := string(seedBytes(t, p))
	i := strings.Index(s, " Do ")
	f := strings.Fields(s[:i])
	var w, x float64
	n := len(f)
	fmt.Sscan(f[n-8], &w)
	fmt.Sscan(f[n-4], &x)
	if flip {
		return -x - w
	}
	return x
}

func TestSeedDemo(t *testing.T) {
	for _, crop := range []*CropOptions{nil, {X: 0, Y: 0, Width: 30, Height: 20}, {X: 15, Y: 5, Width: 30, Height: 20}} {
		a, b := leftOf(t, false, crop), leftOf(t, true, crop)
		if d := a - b; d > 0.02 || d < -0.02 {
			t.Errorf("crop %v: the image begins at %.2f, the mirrored one at %.2f", crop, a, b)
		}
	}
}
'''
