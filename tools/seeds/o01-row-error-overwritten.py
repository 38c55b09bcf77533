PROP='O01'
NEEDS='a table whose first cell of a row fails to draw (unknown font) while the last one succeeds'
BREAKS='the error of every cell but the last of a row is overwritten, DrawTable reports success'
EDITS=[('table.go','''		x = t.startX
		for i, cell := range row {
			cellStyle''','''		x = t.startX
		var rowErr error
		for i, cell := range row {
			cellStyle'''),('table.go','''			if err := t.drawCell(
				x,
				y,
				t.columns[i].width,
				t.rowHeight,
				cell.content,
				t.columns[i].align,
				false, /*isHeader*/
				cellStyle,
			); err != nil {
				return err
			}
			x += t.columns[i].width
		}
''','''			rowErr = t.drawCell(
				x,
				y,
				t.columns[i].width,
				t.rowHeight,
				cell.content,
				t.columns[i].align,
				false, /*isHeader*/
				cellStyle,
			)
			x += t.columns[i].width
		}
		if rowErr != nil {
			return rowErr
		}
''')]
TEST='''
func TestSeedDemo(t *testing.T) {
	p := seedDoc(t)
	p.AddPage()
	tb := p.NewTableLayout(10, 10, 20, 3)
	tb.AddColumn("A", 60, "left")
	tb.AddColumn("B", 60, "left")
	tb.AddStyledRow([]RowCell{NewRowCell("x", CellStyle{Font: "no such font", FontSize: 10}), NewRowCell("y", CellStyle{Font: "f", FontSize: 10})})
	if err := tb.DrawTable(); err == nil {
		t.Fatal("the failure of the first cell is not reported")
	}
}
'''
