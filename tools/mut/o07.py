import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
U,C,D,T,B='unicode_map.go','content_obj.go','pdf_dictionary_obj.go','transparency_xobject_group.go','buffer_pool.go'
show('release early',[(U,'	defer PutBuffer(buff)\n',''),(U,'	if u.protection() != nil {\n		tmp','	b := buff.Bytes()\n	PutBuffer(buff)\n	if u.protection() != nil {\n		tmp'),(U,'u.protection().objectkey(objID), buff.Bytes()','u.protection().objectkey(objID), b'),(U,'		buff.WriteTo(w)\n','		w.Write(b)\n')])
show('double on err',[(C,'	if c.protection() != nil {\n		tmp, err := rc4Cip(c.protection().objectkey(objID), buff.Bytes())\n		if err != nil {\n','	if c.protection() != nil {\n		tmp, err := rc4Cip(c.protection().objectkey(objID), buff.Bytes())\n		if err != nil {\n			PutBuffer(buff)\n')])
show('no reset',[(B,'	buf.Reset()\n','')])
show('reset after put',[(B,'	buf.Reset()\n	buffers.Put(buf)\n','	buffers.Put(buf)\n	buf.Reset()\n')])
show('defer order',[(D,'	gzipwriter.Close()\n',''),(D,'	zbuff := GetBuffer()\n	defer PutBuffer(zbuff)\n\n	gzipwriter := zlib.NewWriter(zbuff)\n','	zbuff := GetBuffer()\n	gzipwriter := zlib.NewWriter(zbuff)\n	defer gzipwriter.Close()\n	defer PutBuffer(zbuff)\n')])
show('return bytes',[(T,'func (s TransparencyXObjectGroup) write(','func (s TransparencyXObjectGroup) stream() ([]byte, error) {\n	streamBuff := GetBuffer()\n	defer PutBuffer(streamBuff)\n	for _, XObject := range s.XObjects {\n		if err := XObject.write(streamBuff, nil); err != nil {\n			return nil, err\n		}\n	}\n	return streamBuff.Bytes(), nil\n}\n\nfunc (s TransparencyXObjectGroup) write('),(T,'	streamBuff := GetBuffer()\n	defer PutBuffer(streamBuff)\n\n	for _, XObject := range s.XObjects {\n		if err := XObject.write(streamBuff, nil); err != nil {\n			return err\n		}\n	}\n\n	data := streamBuff.Bytes()\n','	data, err := s.stream()\n	if err != nil {\n		return err\n	}\n')])
show('kept in field',[(D,'	pdfProtection *PDFProtection\n','	pdfProtection *PDFProtection\n	cache []byte\n'),(D,'	gzipwriter.Close()\n','	gzipwriter.Close()\n	p.cache = zbuff.Bytes()\n')])
show('reset conditional',[(B,'	buf.Reset()\n','	if buf.Cap() > 1<<16 {\n		buf.Reset()\n	}\n')])
show('put in loop twice',[(T,'	defer PutBuffer(streamBuff)\n',''),(T,'	data := streamBuff.Bytes()\n','	data := streamBuff.Bytes()\n	PutBuffer(streamBuff)\n')])
show('benign explicit',[(T,'	defer PutBuffer(streamBuff)\n',''),(T,'		if err := XObject.write(streamBuff, nil); err != nil {\n			return err\n','		if err := XObject.write(streamBuff, nil); err != nil {\n			PutBuffer(streamBuff)\n			return err\n'),(T,'	data := streamBuff.Bytes()\n','	data := append([]byte(nil), streamBuff.Bytes()...)\n	PutBuffer(streamBuff)\n')])
show('benign closure defer',[(T,'	defer PutBuffer(streamBuff)\n','	defer func() { PutBuffer(streamBuff) }()\n')])
show('benign reset on get',[(B,'	buf.Reset()\n',''),(B,'	return buffers.Get().(*bytes.Buffer)\n','	b := buffers.Get().(*bytes.Buffer)\n	b.Reset()\n	return b\n')])
show('benign no pool',[(T,'	streamBuff := GetBuffer()\n	defer PutBuffer(streamBuff)\n','	streamBuff := new(bytes.Buffer)\n'),(T,'import (\n','import (\n	"bytes"\n')])
show('benign helper fill',[(T,'	for _, XObject := range s.XObjects {\n		if err := XObject.write(streamBuff, nil); err != nil {\n			return err\n		}\n	}\n','	if err := s.fill(streamBuff); err != nil {\n		return err\n	}\n'),(T,'func (s TransparencyXObjectGroup) write(','func (s TransparencyXObjectGroup) fill(w io.Writer) error {\n	for _, XObject := range s.XObjects {\n		if err := XObject.write(w, nil); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (s TransparencyXObjectGroup) write(')])
show('benign stream helper copies',[(T,'func (s TransparencyXObjectGroup) write(','func (s TransparencyXObjectGroup) stream() ([]byte, error) {\n	streamBuff := GetBuffer()\n	defer PutBuffer(streamBuff)\n	for _, XObject := range s.XObjects {\n		if err := XObject.write(streamBuff, nil); err != nil {\n			return nil, err\n		}\n	}\n	return []byte(streamBuff.String()), nil\n}\n\nfunc (s TransparencyXObjectGroup) write('),(T,'	streamBuff := GetBuffer()\n	defer PutBuffer(streamBuff)\n\n	for _, XObject := range s.XObjects {\n		if err := XObject.write(streamBuff, nil); err != nil {\n			return err\n		}\n	}\n\n	data := streamBuff.Bytes()\n','	data, err := s.stream()\n	if err != nil {\n		return err\n	}\n')])
show('benign with-helper callback',[(B,'// PutBuffer returns','func withBuffer(f func(*bytes.Buffer) error) error {\n	b := GetBuffer()\n	defer PutBuffer(b)\n	return f(b)\n}\n\n// PutBuffer returns'),(T,'	streamBuff := GetBuffer()\n	defer PutBuffer(streamBuff)\n\n	for','	return withBuffer(func(streamBuff *bytes.Buffer) error { return s.body(w, objId, streamBuff) })\n}\n\nfunc (s TransparencyXObjectGroup) body(w io.Writer, objId int, streamBuff *bytes.Buffer) error {\n	for'),(T,'import (\n','import (\n	"bytes"\n')])
show('leak on error',[(C,'	defer PutBuffer(buff)\n',''),(C,'	if _, err := io.WriteString(w, "<<\\n"); err != nil {\n		return err\n	}\n','	defer PutBuffer(buff)\n	if _, err := io.WriteString(w, "<<\\n"); err != nil {\n		return err\n	}\n')])
