PROP='O03'
NEEDS='a TrueType font that lacks two or more of the optional tables (cvt, fpgm, prep)'
BREAKS='tables that are missing have the same position, so their order in the embedded font follows map iteration order and two runs write different bytes'
EDITS=[('pdf_dictionary_obj.go','''	sort.Strings(tags) //order
''','''	sort.SliceStable(tags, func(i, j int) bool { // as in the source file
		return tables[tags[i]].Offset < tables[tags[j]].Offset
	})
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	font, err := os.ReadFile("test/res/LiberationSerif-Regular.ttf")
	if err != nil {
		t.Fatal(err)
	}
	n := int(font[4])<<8 | int(font[5])
	for i := 0; i < n; i++ {
		tag := font[12+16*i : 16+16*i]
		switch string(tag) {
		case "cvt ", "fpgm", "prep":
			tag[3] = 'X'
		}
	}
	var first []byte
	for i := 0; i < 60; i++ {
		pdf := &GoPdf{}
		pdf.Start(Config{PageSize: *PageSizeA4})
		pdf.AddPage()
		if err := pdf.AddTTFFontData("f", font); err != nil {
			t.Fatal(err)
		}
		if err := pdf.SetFont("f", "", 12); err != nil {
			t.Fatal(err)
		}
		if err := pdf.Cell(nil, "abc"); err != nil {
			t.Fatal(err)
		}
		b := pdf.GetBytesPdf()
		if first == nil {
			first = b
		}
		if !bytes.Equal(first, b) {
			t.Fatalf("run %d: the same calls gave another document", i)
		}
	}
}
'''
