PROP='L06'
NEEDS='two different images from readers whose files start alike (same size, same kind)'
BREAKS='the second image is taken for the first one and drawn as that'
EDITS=[('image_holder.go','''	_, err = h.Write(b)
	if err != nil {''','''	head := b
	if len(head) > 40 {
		head = head[:40]
	}
	_, err = h.Write(head)
	if err != nil {''')]
TEST='''
func seedPic(t *testing.T, shade uint8) ImageHolder {
	im := image.NewGray(image.Rect(0, 0, 4, 4))
	for i := range im.Pix {
		im.Pix[i] = shade
	}
	var b bytes.Buffer
	if err := png.Encode(&b, im); err != nil {
		t.Fatal(err)
	}
	h, err := ImageHolderByReader(&b)
	if err != nil {
		t.Fatal(err)
	}
	return h
}

func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	for _, s := range []uint8{10, 200} {
		if err := p.ImageByHolder(seedPic(t, s), 10, 10, &Rect{W: 20, H: 20}); err != nil {
			t.Fatal(err)
		}
	}
	n := 0
	for _, o := range seedObjects(seedBytes(t, p)) {
		if strings.Contains(o, "/Subtype /Image") {
			n++
		}
	}
	if n != 2 {
		t.Fatalf("%d image objects for two images", n)
	}
}
'''
