PROP='L02'
NEEDS='an image that is cropped and flipped vertically, but not horizontally (or the other way round)'
BREAKS='the image is placed mirrored at the lower edge of the page, away from its clipping area'
EDITS=[('cache_content_image.go','''		y += c.crop.Y - height
		if c.verticalFlip {
''','''		y += c.crop.Y - height
		if c.horizontalFlip {
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := &GoPdf{}
	p.Start(Config{PageSize: Rect{W: 300, H: 400}})
	p.SetNoCompression()
	p.AddPage()
	h, err := ImageHolderByPath("test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	err = p.ImageByHolderWithOptions(h, ImageOptions{X: 10, Y: 20, Rect: &Rect{W: 100, H: 100}, VerticalFlip: true, Crop: &CropOptions{X: 0, Y: 0, Width: 50, Height: 50}})
	if err != nil {
		t.Fatal(err)
	}
	b := string(seedBytes(t, p))
	m := regexp.MustCompile(`0 0\\n [0-9.]+ [0-9.]+ (-?[0-9.]+) cm /I[0-9]+ Do`).FindStringSubmatch(b)
	if m == nil {
		t.Fatal("the image is not drawn")
	}
	if y, _ := strconv.ParseFloat(m[1], 64); y != -380 {
		t.Fatalf("the image is drawn at %v, expected -380 in flipped space", y)
	}
}
'''
