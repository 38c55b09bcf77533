PROP='O08'
NEEDS='an image whose encoded form is larger than one MiB'
BREAKS='only the first MiB is read: the goroutine that encodes the image blocks forever'
EDITS=[('gopdf.go','	imgh, err := ImageHolderByReader(bufio.NewReader(r))\n','	imgh, err := ImageHolderByReader(io.LimitReader(r, 1<<20))\n')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	img := image.NewRGBA(image.Rect(0, 0, 900, 900))
	s := uint32(1)
	for i := range img.Pix {
		s = s*1664525 + 1013904223
		img.Pix[i] = byte(s >> 24)
		if i%4 == 3 {
			img.Pix[i] = 255
		}
	}
	before := runtime.NumGoroutine()
	p.ImageFrom(img, 0, 0, &Rect{W: 10, H: 10})
	for i := 0; i < 50; i++ {
		if runtime.NumGoroutine() <= before {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatal("the encoding goroutine never ends")
}
'''
