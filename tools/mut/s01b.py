import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
G='gopdf.go'
show('repeat',[(G,'''	for len(str) < 10 {
		str = "0" + str
	}
''','''	if len(str) < 10 {
		str = strings.Repeat("0", 10-len(str)) + str
	}
''')])
show('sprintf pad',[(G,'''	str := strconv.FormatInt(n, 10)
	for len(str) < 10 {
		str = "0" + str
	}
	return str
''','''	return fmt.Sprintf("%010d", n)
''')])
show('buffer in xref',[(G,'''	io.WriteString(w, "xref\\n")
	fmt.Fprintf(w, "0 %d\\n", i+1)''','''	fmt.Fprint(w, "xref\\n")
	w.Write([]byte("0 " + strconv.Itoa(i+1) + "\\n"))''')])
show('start var',[(G,'''	if err := gp.xref(writer, writer.offset, linelens, i); err != nil {''','''	start := writer.offset
	if err := gp.xref(writer, start, linelens, i); err != nil {''')])
show('body helper',[(G,'''	linelens := make([]int64, max)
	i := 0

	for i < max {
		objID := i + 1
		linelens[i] = writer.offset
		pdfObj := gp.pdfObjs[i]
		if _, err := fmt.Fprintf(writer, "%d 0 obj\\n", objID); err != nil {
			return writer.offset, err
		}
		if err := pdfObj.write(writer, objID); err != nil {
			return writer.offset, err
		}
		if _, err := io.WriteString(writer, "endobj\\n\\n"); err != nil {
			return writer.offset, err
		}
		i++
	}
	if err := gp.xref(writer, writer.offset, linelens, i); err''','''	linelens, err := gp.writeBody(writer)
	if err != nil {
		return writer.offset, err
	}
	if err := gp.xref(writer, writer.offset, linelens, max); err'''),(G,'type (\n	countingWriter','''func (gp *GoPdf) writeBody(writer *countingWriter) ([]int64, error) {
	linelens := make([]int64, len(gp.pdfObjs))
	for i := range gp.pdfObjs {
		linelens[i] = writer.offset
		if _, err := fmt.Fprintf(writer, "%d 0 obj\\n", i+1); err != nil {
			return nil, err
		}
		if err := gp.pdfObjs[i].write(writer, i+1); err != nil {
			return nil, err
		}
		if _, err := io.WriteString(writer, "endobj\\n\\n"); err != nil {
			return nil, err
		}
	}
	return linelens, nil
}

type (
	countingWriter''')])
show('inline newCountingWriter',[(G,'writer := newCountingWriter(w)','writer := &countingWriter{writer: w}')])
show('writeString via local',[(G,'''	j := 0
	max := len(linelens)
	for j < max {
		linelen := linelens[j]
		fmt.Fprintf(w, "%s 00000 n \\n", gp.formatXrefline(linelen))
		j++
	}''','''	max := len(linelens)
	for j := 0; j < max; j++ {
		line := gp.formatXrefline(linelens[j]) + " 00000 n \\n"
		io.WriteString(w, line)
	}''')])
show('size i+1',[(G,'"/Size %d\\n", max+1','"/Size %d\\n", i+1')])
