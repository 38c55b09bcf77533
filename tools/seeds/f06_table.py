PROP='F06'
NEEDS='a centred column in a table whose cell option asks for another alignment'
BREAKS='the column is aligned to the right'
EDITS=[('table.go','		textOption.Align = Center | Middle\n','		textOption.Align |= Center\n')]
TEST='''
func columnAt(t *testing.T, align string, opt CellOption) float64 {
	p := seedDoc(t)
	p.AddPage()
	tb := p.NewTableLayout(10, 10, 25, 1)
	tb.AddColumn("h", 200, align)
	tb.SetTableStyle(CellStyle{})
	tb.SetHeaderStyle(CellStyle{Font: "f", FontSize: 10})
	tb.SetCellStyle(CellStyle{Font: "f", FontSize: 10})
	tb.(*tableLayout).cellOption = opt
	tb.AddRow([]string{"cell"})
	if err := tb.DrawTable(); err != nil {
		t.Fatal(err)
	}
	s := string(seedBytes(t, p))
	var x float64
	fmt.Sscanf(s[strings.LastIndex(s, "BT\\n")+3:], "%f", &x)
	return x
}

func TestSeedDemo(t *testing.T) {
	plain := CellOption{BreakOption: &DefaultBreakOption}
	right := CellOption{Align: Right | Middle, BreakOption: &DefaultBreakOption}
	for _, a := range []string{"left", "center", "right"} {
		if x, y := columnAt(t, a, plain), columnAt(t, a, right); x != y {
			t.Errorf("column %q begins at %.2f and at %.2f", a, x, y)
		}
	}
}
'''
