import sys,os
os.environ['MUT_ID']='F02'
from mut import show
sel=sys.argv[1:]
def s(n,e):
    if not sel or any(x in n for x in sel): show(n,e)
G='gopdf.go'; P='image_obj_parse.go'; T='fontmaker/core/ttfparser.go'; K='fontmaker/core/ttfparser_kern.go'; F='fontmaker/core/fontmaker.go'; C12='fontmaker/core/ttfparser_cmap_other_format.go'; H='image_holder.go'; IO='image_obj.go'; SF='subset_font_obj.go'; FC='font_container.go'
RB='''	b := make([]byte, len)
	_, err := io.ReadFull(f, b)
	if err != nil {
		return nil, err
	}
'''
s('bug readBytes read',[(P,RB,RB.replace('io.ReadFull(f, b)','f.Read(b)'))])
s('benign readBytes read compared',[(P,RB,RB.replace('_, err := io.ReadFull(f, b)','n, err := f.Read(b)')+'	if n < len {\n		return nil, io.ErrUnexpectedEOF\n	}\n')])
s('bug readBytes compare zero',[(P,RB,RB.replace('_, err := io.ReadFull(f, b)','n, err := f.Read(b)')+'	if n == 0 {\n		return nil, io.ErrUnexpectedEOF\n	}\n')])
s('bug readBytes cut',[(P,RB,RB.replace('_, err := io.ReadFull(f, b)','n, err := f.Read(b)')+'	b = b[:n]\n')])
s('bug readBytes unexpected tolerated',[(P,RB,RB.replace('	if err != nil {','	if err != nil && err != io.ErrUnexpectedEOF {'))])
s('benign readBytes section',[(P,RB,'''	b := make([]byte, len)
	for got := 0; got < len; {
		n, err := io.ReadAtLeast(f, b[got:], len-got)
		if err != nil {
			return nil, err
		}
		got += n
	}
''')])
s('bug font read eof',[(T,'''	readlength, err := fd.Read(buff)
	if err != nil {
		return nil, err
	}
''','''	readlength, err := fd.Read(buff)
	if err != nil && err != io.EOF {
		return nil, err
	}
'''),(T,'	if readlength != length {','	if readlength > length {')])
s('bug font read no compare',[(T,'''	if readlength != length {
		return nil, errors.New("file out of length")
	}
''','	_ = readlength\n')])
s('bug font read le',[(T,'	if readlength != length {','	if readlength > length {')])
s('benign font read lt',[(T,'	if readlength != length {','	if readlength < length {')])
s('benign font read full',[(T,'''	readlength, err := fd.Read(buff)
	if err != nil {
		return nil, err
	}
	if readlength != length {
		return nil, errors.New("file out of length")
	}
''','''	if _, err := io.ReadFull(fd, buff); err != nil {
		return nil, err
	}
''')])
s('benign font read inverted',[(T,'''	if readlength != length {
		return nil, errors.New("file out of length")
	}
	return buff, nil
''','''	if readlength == length {
		return buff, nil
	}
	return nil, errors.New("file out of length")
''')])
s('bug ushort ignored',[(T,'''	buff, err := t.Read(fd, 2)
	if err != nil {
		return 0, err
	}
''','''	buff, err := t.Read(fd, 2)
	if len(buff) < 2 {
		return 0, nil
	}
	_ = err
''')])
s('bug maxp shadow',[(T,'''	t.numGlyphs, err = t.ReadUShort(fd)
	if err != nil {
		return err
	}
	return nil
''','''	t.numGlyphs, _ = t.ReadUShort(fd)
	return nil
''')])
s('benign maxp tail',[(T,'''	t.numGlyphs, err = t.ReadUShort(fd)
	if err != nil {
		return err
	}
	return nil
''','''	t.numGlyphs, err = t.ReadUShort(fd)
	return err
''')])
s('benign hhea wrap',[(T,'''	t.numberOfHMetrics, err = t.ReadUShort(fd)
	if err != nil {
		return err
	}
''','''	if t.numberOfHMetrics, err = t.ReadUShort(fd); err != nil {
		return fmt.Errorf("hhea: %v", err)
	}
'''),(T,'import (','import (\n	"fmt"\n')])
s('bug kern pair eof',[(K,'''		right, err := t.ReadUShort(fd)
		if err != nil {
			return err
		}
''','''		right, err := t.ReadUShort(fd)
		if err != nil {
			break
		}
''')])
s('bug loca continue',[(T,'''		for i < entries {
''','''		for i < entries {
			if i == entries-1 {
				v, _ := t.ReadULong(fd)
				locaTable = append(locaTable, v)
				i++
				continue
			}
''')])
s('bug png n stop',[(P,'		} else if string(typ) == "IEND" {\n			break\n','		} else if string(typ) == "IEND" || n == 0 {\n			break\n')])
s('bug png eof is end',[(P,'''		un, err := readUInt(f)
		if err != nil {
			return err
		}
''','''		un, err := readUInt(f)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
''')])
s('benign png switch',[(P,'		} else if string(typ) == "IEND" {\n			break\n','		} else if bytes.Equal(typ, []byte("IEND")) {\n			break\n')])
s('bug zlib partial',[(P,'''		afterZipData, err := io.ReadAll(zipReader)
		if err != nil {
			return err
		}
''','''		afterZipData, err := io.ReadAll(zipReader)
		if err != nil && err != io.ErrUnexpectedEOF {
			return err
		}
''')])
s('bug zlib len',[(P,'''		afterZipData, err := io.ReadAll(zipReader)
		if err != nil {
			return err
		}
''','''		afterZipData, err := io.ReadAll(zipReader)
		if err != nil && len(afterZipData) == 0 {
			return err
		}
''')])
s('bug holder partial',[(H,'''	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
''','''	b, err := io.ReadAll(r)
	if err != nil && len(b) == 0 {
		return nil, err
	}
''')])
s('bug scanner',[(F,'''	if err := scanner.Err(); err != nil {
		return nil, err
	}
''','')])
s('benign scanner tail',[(F,'''	if err := scanner.Err(); err != nil {
		return nil, err
	}

	return fontmaps, nil
''','''	return fontmaps, scanner.Err()
''')])
s('bug format12 flag',[(C12,'''	_, err = fd.Seek(int64(t.tables["cmap"].Offset+offset), 0)
	if err != nil {
''','''	_, err = fd.Seek(int64(t.tables["cmap"].Offset+offset), 0)
	if err != nil && offset > 0 {
''')])
s('benign helper',[(T,'''	t.xMin, err = t.ReadShort(fd)
	if err != nil {
		return err
	}

	t.yMin, err = t.ReadShort(fd)
	if err != nil {
		return err
	}

	t.xMax, err = t.ReadShort(fd)
	if err != nil {
		return err
	}

	t.yMax, err = t.ReadShort(fd)
	if err != nil {
		return err
	}
''','''	if err = t.readShorts(fd, &t.xMin, &t.yMin, &t.xMax, &t.yMax); err != nil {
		return err
	}
'''),(T,'// ParseHhea parse','''func (t *TTFParser) readShorts(fd *bytes.Reader, to ...*int) error {
	for _, p := range to {
		v, err := t.ReadShort(fd)
		if err != nil {
			return err
		}
		*p = v
	}
	return nil
}

// ParseHhea parse''')])
s('benign collected errors',[(T,'''	t.xMax, err = t.ReadShort(fd)
	if err != nil {
		return err
	}

	t.yMax, err = t.ReadShort(fd)
	if err != nil {
		return err
	}
''','''	xMax, err1 := t.ReadShort(fd)
	yMax, err2 := t.ReadShort(fd)
	if err1 != nil {
		return err1
	}
	if err2 != nil {
		return err2
	}
	t.xMax, t.yMax = xMax, yMax
''')])
s('benign firstErr',[(T,'''	t.xMax, err = t.ReadShort(fd)
	if err != nil {
		return err
	}

	t.yMax, err = t.ReadShort(fd)
	if err != nil {
		return err
	}
''','''	var firstErr error
	get := func() int {
		v, e := t.ReadShort(fd)
		if e != nil && firstErr == nil {
			firstErr = e
		}
		return v
	}
	t.xMax = get()
	t.yMax = get()
	if firstErr != nil {
		return firstErr
	}
''')])
s('bug lastErr',[(T,'''	t.xMax, err = t.ReadShort(fd)
	if err != nil {
		return err
	}

	t.yMax, err = t.ReadShort(fd)
	if err != nil {
		return err
	}
''','''	var lastErr error
	get := func() int {
		v, e := t.ReadShort(fd)
		lastErr = e
		return v
	}
	t.xMax = get()
	t.yMax = get()
	if lastErr != nil {
		return lastErr
	}
''')])
s('bug image cfg',[(P,'''	imgConfig, formatname, err := image.DecodeConfig(raw)
	if err != nil {
		return info, err
	}
''','''	imgConfig, formatname, err := image.DecodeConfig(raw)
	if formatname == "" {
		return info, err
	}
''')])
