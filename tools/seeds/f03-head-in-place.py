PROP='F03'
NEEDS='the same parsed font written by a second document or a second time, or its data read after output'
BREAKS='the checksum adjustment in the head table of the parsed font data is cleared while a document is written'
EDITS=[('pdf_dictionary_obj.go','''	tableCount := len(tables)
''','''	if head := tables["head"]; head.Length >= 12 {
		// the adjustment does not apply to a subset
		adj := ttfp.FontData()[head.Offset+8 : head.Offset+12]
		copy(adj, []byte{0, 0, 0, 0})
	}
	tableCount := len(tables)
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	data, err := os.ReadFile("./test/res/LiberationSerif-Regular.ttf")
	if err != nil {
		t.Fatal(err)
	}
	own := append([]byte{}, data...)
	p := &GoPdf{}
	p.Start(Config{PageSize: *PageSizeA4})
	if err := p.AddTTFFontData("f", own); err != nil {
		t.Fatal(err)
	}
	p.SetFont("f", "", 12)
	p.AddPage()
	p.Cell(nil, "abc")
	seedBytes(t, p)
	if !bytes.Equal(own, data) {
		t.Fatal("the font data changed")
	}
}
'''
