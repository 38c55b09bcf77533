PROP='F02'
NEEDS='a PNG with an alpha channel whose compressed data has been cut, all rows being there but not the checksum'
BREAKS='the data is used although its checksum never arrived'
EDITS=[('image_obj_parse.go', '\t\tafterZipData, err := io.ReadAll(zipReader)\n\t\tif err != nil {\n', '\t\tafterZipData, err := io.ReadAll(zipReader)\n\t\tif err != nil && len(afterZipData) < h*(1+4*w) {\n')]
TEST='''

func TestSeedDemo(t *testing.T) {
	var b bytes.Buffer
	im := image.NewNRGBA(image.Rect(0, 0, 8, 8))
	im.Pix[3] = 100
	im.Pix[40] = 9
	if err := png.Encode(&b, im); err != nil {
		t.Fatal(err)
	}
	d := b.Bytes()
	at := bytes.Index(d, []byte("IDAT"))
	if _, err := parseImg(bytes.NewReader(d)); err != nil {
		t.Fatal(err)
	}
	n := int(binary.BigEndian.Uint32(d[at-4:]))
	cut := append([]byte{}, d[:at+4+n-3]...)
	binary.BigEndian.PutUint32(cut[at-4:], uint32(n-3))
	cut = append(cut, d[at+4+n:]...)
	if _, err := parseImg(bytes.NewReader(cut)); err == nil {
		t.Fatal("cut data accepted")
	}
}
'''
