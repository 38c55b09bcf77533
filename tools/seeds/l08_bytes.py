PROP='L08'
NEEDS='word wrapping of a long line with a last word of characters outside ASCII that does not fit'
BREAKS='the split goes back before the start of the line and never ends'
EDITS=[('gopdf.go','		diff := len(*lineText) - brIdx','		diff := len(string(*lineText)) - brIdx')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	w, err := p.MeasureTextWidth("a \\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9")
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- "panic"
			}
		}()
		lines, err := p.SplitTextWithWordWrap("aaa aaa aaa aaa aaa aaa a \\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9", w)
		if err != nil {
			done <- err.Error()
		} else if len(lines) > 10 {
			done <- "too many lines"
		}
		done <- ""
	}()
	select {
	case s := <-done:
		if s != "" {
			t.Fatal(s)
		}
	case <-time.After(time.Second):
		t.Fatal("no end")
	}
}
'''
