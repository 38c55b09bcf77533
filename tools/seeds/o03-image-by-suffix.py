PROP='O03'
NEEDS='two images already in the document whose IDs both end in the ID of the image drawn now'
BREAKS='which of the two cached images is drawn depends on map iteration order, so the same calls give different documents'
EDITS=[('gopdf.go','''		if img.ID() == imgcache.Path {
			cacheImageIndex = imgcache.Index
''','''		if strings.HasSuffix(imgcache.Path, img.ID()) {
			cacheImageIndex = imgcache.Index
''')]
TEST='''
type seedHolder struct {
	id string
	bytes.Buffer
}

func (h *seedHolder) ID() string { return h.id }

func seedPic(t *testing.T, id string, shade uint8) ImageHolder {
	im := image.NewGray(image.Rect(0, 0, 4, 4))
	for i := range im.Pix {
		im.Pix[i] = shade
	}
	h := &seedHolder{id: id}
	if err := png.Encode(&h.Buffer, im); err != nil {
		t.Fatal(err)
	}
	return h
}

func TestSeedDemo(t *testing.T) {
	var first []byte
	for i := 0; i < 60; i++ {
		pdf := &GoPdf{}
		pdf.Start(Config{PageSize: *PageSizeA4})
		pdf.SetNoCompression()
		pdf.AddPage()
		for _, n := range []struct {
			id    string
			shade uint8
		}{{"de/logo.png", 10}, {"fr/logo.png", 100}, {"logo.png", 200}} {
			if err := pdf.ImageByHolder(seedPic(t, n.id, n.shade), 10, 10, &Rect{W: 20, H: 20}); err != nil {
				t.Fatal(err)
			}
		}
		b := pdf.GetBytesPdf()
		if first == nil {
			first = b
		}
		if !bytes.Equal(first, b) {
			t.Fatalf("run %d: the same calls gave another document", i)
		}
	}
}
'''
