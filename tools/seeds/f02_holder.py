PROP='F02'
NEEDS='a reader that fails after it gave some of the image'
BREAKS='an image cut at the failure is taken as complete'
EDITS=[('image_holder.go', '\tb, err := io.ReadAll(r)\n\tif err != nil {\n\t\treturn nil, err\n', '\tb, err := io.ReadAll(r)\n\tif err != nil && len(b) == 0 {\n\t\treturn nil, err\n')]
TEST='''

type failingReader struct {
	b []byte
}

func (f *failingReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, errors.New("connection lost")
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}

func TestSeedDemo(t *testing.T) {
	b, err := os.ReadFile("test/res/gopher01.jpg")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ImageHolderByReader(&failingReader{b: b[:len(b)/2]}); err == nil {
		t.Fatal("the failure of the reader is lost")
	}
}
'''
