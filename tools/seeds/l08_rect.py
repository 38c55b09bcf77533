PROP='L08'
NEEDS='90 or more points to a corner'
BREAKS='drawing a rectangle with rounded corners never returns'
EDITS=[('gopdf.go','		angle := float64(90) / float64(radiusPointNum+1)','		angle := float64(90 / (radiusPointNum + 1))')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	for n := 80; n < 100; n += 5 {
		done := make(chan error, 1)
		go func(n int) {
			done <- p.Rectangle(10, 10, 100, 100, "D", 5, n)
		}(n)
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(2 * time.Second):
			t.Fatal("no end with", n, "points")
		}
	}
}
'''
