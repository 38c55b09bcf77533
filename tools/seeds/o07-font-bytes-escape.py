PROP='O07'
NEEDS='another user of the buffer pool (a second document in another goroutine, or a destination that takes a buffer itself) while a font is being written'
BREAKS='the compressed font program is handed out of a helper that gives the buffer it lies in back to the pool, so a concurrent user overwrites the font before it is written'
EDITS=[('pdf_dictionary_obj.go','''	//zipvar buff bytes.Buffer
	zbuff := GetBuffer()
	defer PutBuffer(zbuff)

	gzipwriter := zlib.NewWriter(zbuff)
	_, err = gzipwriter.Write(b)
	if err != nil {
		return err
	}
	gzipwriter.Close()

	fmt.Fprintf(w, "<</Length %d\\n", zbuff.Len())
''','''	data, err := p.deflate(b)
	if err != nil {
		return err
	}

	fmt.Fprintf(w, "<</Length %d\\n", len(data))
'''),('pdf_dictionary_obj.go','p.protection().objectkey(objID), zbuff.Bytes())','p.protection().objectkey(objID), data)'),('pdf_dictionary_obj.go','		w.Write(zbuff.Bytes())\n','		w.Write(data)\n'),
('pdf_dictionary_obj.go','''func (p *PdfDictionaryObj) getType() string {
''','''// deflate compresses the font program.
func (p *PdfDictionaryObj) deflate(b []byte) ([]byte, error) {
	zbuff := GetBuffer()
	defer PutBuffer(zbuff)

	gzipwriter := zlib.NewWriter(zbuff)
	if _, err := gzipwriter.Write(b); err != nil {
		return nil, err
	}
	if err := gzipwriter.Close(); err != nil {
		return nil, err
	}
	return zbuff.Bytes(), nil
}

func (p *PdfDictionaryObj) getType() string {
''')]
TEST='''
type seedPoolWriter struct{ out bytes.Buffer }

// Write takes a scratch buffer of its own, as any concurrent document may.
func (s *seedPoolWriter) Write(b []byte) (int, error) {
	var bs []*bytes.Buffer
	for i := 0; i < 4; i++ {
		q := GetBuffer()
		q.WriteString(strings.Repeat("x", 200))
		bs = append(bs, q)
	}
	for _, q := range bs {
		PutBuffer(q)
	}
	return s.out.Write(b)
}

func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	p.Text("pool")
	want := append([]byte(nil), seedBytes(t, p)...)
	for i := 0; i < 20; i++ {
		var w seedPoolWriter
		if _, err := p.WriteTo(&w); err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(w.out.Bytes(), want) {
			t.Fatal("the file was damaged by another user of the pool")
		}
	}
}
'''
