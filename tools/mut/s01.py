import sys,os; sys.path.insert(0,os.path.dirname(__file__))
from mut import show
G='gopdf.go'
LOOP='''		linelens[i] = writer.offset
		pdfObj := gp.pdfObjs[i]
		if _, err := fmt.Fprintf(writer, "%d 0 obj\\n", objID); err != nil {
			return writer.offset, err
		}
'''
print('--- bugs')
show('offset after header',[(G,LOOP,LOOP.replace('		linelens[i] = writer.offset\n','')+'		linelens[i] = writer.offset\n')])
show('count len(b)',[(G,'cw.offset += int64(n)','cw.offset += int64(len(b))')])
show('size',[(G,'"/Size %d\\n", max+1','"/Size %d\\n", max')])
show('count',[(G,'"0 %d\\n", i+1','"0 %d\\n", i')])
show('skip entry',[(G,'''		linelen := linelens[j]
''','''		linelen := linelens[j]
		if linelen > 9999999 {
			j++
			continue
		}
''')])
show('pad 9',[(G,'for len(str) < 10','for len(str) < 9')])
show('xref after',[(G,'gp.xref(writer, writer.offset, linelens, i)','gp.xref(w, writer.offset, linelens, i)')])
show('no sp',[(G,'"%s 00000 n \\n"','"%s 00000 n\\n"')])
show('objid',[(G,'pdfObj.write(writer, objID)','pdfObj.write(writer, i)')])
show('skip nil obj',[(G,'''		pdfObj := gp.pdfObjs[i]
		if _''','''		pdfObj := gp.pdfObjs[i]
		if pdfObj.getType() == "Font" {
			i++
			continue
		}
		if _''')])
show('bufio',[(G,'	writer := newCountingWriter(w)\n','	bw := bufio.NewWriter(w)\n	writer := newCountingWriter(bw)\n'),(G,'import (','import (\n	"bufio"')])
show('root',[(G,'"/Root 1 0 R\\n"','"/Root 2 0 R\\n"')])
show('not reset',[(G,'	gp.buf = bytes.Buffer{}\n','	gp.buf.Truncate(0)\n')])
show('no err count',[(G,'''	n, err := cw.writer.Write(b)
	cw.offset += int64(n)
''','''	n, err := cw.writer.Write(b)
	if err != nil {
		return n, err
	}
	cw.offset += int64(n)
''')])
show('extra text after write',[(G,'''	_, err := gp.compilePdf(w)
	return err
''','''	_, err := gp.compilePdf(w)
	io.WriteString(w, "\\n")
	return err
''')])
show('startxref +1',[(G,'fmt.Fprintf(w, "%d", xrefbyteoffset)','fmt.Fprintf(w, "%d", xrefbyteoffset+1)')])
show('from loop 1',[(G,'''	j := 0
	max := len(linelens)''','''	j := 1
	max := len(linelens)''')])
show('encrypt obj id stale',[(G,'"/Encrypt %d 0 R\\n", gp.encryptionObjID','"/Encrypt %d 0 R\\n", gp.encryptionObjID-1')])
print('--- refactorings')
show('%010d',[(G,'"%s 00000 n \\n", gp.formatXrefline(linelen)','"%010d 00000 n \\n", linelen')])
show('range',[(G,'''	j := 0
	max := len(linelens)
	for j < max {
		linelen := linelens[j]
		fmt.Fprintf(w, "%s 00000 n \\n", gp.formatXrefline(linelen))
		j++
	}''','''	max := len(linelens)
	for _, linelen := range linelens {
		fmt.Fprintf(w, "%s 00000 n \\n", gp.formatXrefline(linelen))
	}''')])
show('append',[(G,'linelens := make([]int64, max)','linelens := make([]int64, 0, max)'),(G,'linelens[i] = writer.offset','linelens = append(linelens, writer.offset)')])
show('range objs',[(G,'''	i := 0

	for i < max {
		objID := i + 1
''','''	n2 := 0
	for i, pdfObj := range gp.pdfObjs {
		objID := i + 1
		n2++
'''),(G,'''		pdfObj := gp.pdfObjs[i]
		if _''','		if _'),(G,'''			return writer.offset, err
		}
		i++
''','''			return writer.offset, err
		}
'''),(G,'linelens, i)','linelens, n2)')])
show('len objs',[(G,'linelens, i); err','linelens, len(gp.pdfObjs)); err')])
show('helper obj',[(G,LOOP+'''		if err := pdfObj.write(writer, objID); err != nil {
			return writer.offset, err
		}
		if _, err := io.WriteString(writer, "endobj\\n\\n"); err != nil {
			return writer.offset, err
		}
''','''		linelens[i] = writer.offset
		if err := writeIndirect(writer, objID, gp.pdfObjs[i]); err != nil {
			return writer.offset, err
		}
'''),(G,'type (\n	countingWriter','''func writeIndirect(w io.Writer, id int, o IObj) error {
	if _, err := fmt.Fprintf(w, "%d 0 obj\\n", id); err != nil {
		return err
	}
	if err := o.write(w, id); err != nil {
		return err
	}
	_, err := io.WriteString(w, "endobj\\n\\n")
	return err
}

type (
	countingWriter''')])
show('for i',[(G,'	i := 0\n\n	for i < max {','	var i int\n	for i = 0; i < max; i++ {'),(G,'''			return writer.offset, err
		}
		i++
''','''			return writer.offset, err
		}
''')])
show('trailer helper',[(G,'''	io.WriteString(w, "trailer\\n")
	io.WriteString(w, "<<\\n")
	fmt.Fprintf(w, "/Size %d\\n", max+1)
''','''	fmt.Fprintf(w, "trailer\\n<<\\n/Size %d\\n", max+1)
''')])
show('repeat',[(G,'''	for len(str) < 10 {
		str = "0" + str
	}
''','''	if len(str) < 10 {
		str = strings.Repeat("0", 10-len(str)) + str
	}
'''),(G,'import (','import (\n	"strings"')])
