PROP='L08'
NEEDS='a character beyond the basic plane in a document property'
BREAKS='writing the document never returns'
EDITS=[('gopdf.go','		for len(c) < 4 {','		for len(c) != 4 {')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.SetInfo(PdfInfo{Title: "plain \\U0001F600"})
	p.AddPage()
	done := make(chan error, 1)
	go func() {
		_, err := p.GetBytesPdfReturnErr()
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(time.Second):
		t.Fatal("no end")
	}
}
'''
