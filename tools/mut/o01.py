import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
G='gopdf.go'
show('sticky not asked',[(G,'return writer.offset, writer.err','return writer.offset, nil')])
show('sticky cleared',[(G,'	cw.err = err\n','	if n == 0 {\n		cw.err = err\n	}\n')])
show('Write returns nil',[(G,'''	_, err := gp.compilePdf(w)
	return err
''','''	gp.compilePdf(w)
	return nil
''')])
show('zlib close error ignored',[('content_obj.go','''		if err := ww.Close(); err != nil {
			return err
		}
''','''		ww.Close()
''')])
show('rc4 err ignored',[('content_obj.go','''		tmp, err := rc4Cip(c.protection().objectkey(objID), buff.Bytes())
		if err != nil {
			return err
		}
''','''		tmp, _ := rc4Cip(c.protection().objectkey(objID), buff.Bytes())
''')])
show('content write err ignored',[('content_obj.go','''		if err := c.listCache.write(ww, c.protection()); err != nil {
			return err
		}
''','''		c.listCache.write(ww, c.protection())
''')])
show('shadow',[('list_cache_content.go','return err','return nil',1)])
show('err swallowed in image',[(G,'''		err = imgobj.parse()
		if err != nil {
			return err
		}
''','''		err = imgobj.parse()
		if err != nil {
			return nil
		}
''')])
show('overwritten',[(G,'''		err = imgobj.parse()
		if err != nil {
			return err
		}
''','''		err = imgobj.parse()
		if opts.Mask != nil {
			_, err = imgobj.getRect()
		}
		if err != nil {
			return err
		}
''')])
show('writepdf err',[(G,'''	_, err = gp.compilePdf(w)
''','''	_, err = gp.compilePdf(w)
	_, err = gp.compilePdf(w)
''')] )
show('file write',[('image_holder.go','''	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	i.Write(b)''','''	b, _ := os.ReadFile(path)
	i.Write(b)''')])
show('benign named result',[(G,'''		err = imgobj.parse()
		if err != nil {
			return err
		}
''','''		if perr := imgobj.parse(); perr != nil {
			return fmt.Errorf("parse: %w", perr)
		}
''')])
show('benign else',[(G,'''		err = imgobj.parse()
		if err != nil {
			return err
		}
		index''','''		if err = imgobj.parse(); err == nil {
			gp.curr.CountOfImg += 0
		} else {
			return err
		}
		index''')])
show('benign switch',[('content_obj.go','''		if err := ww.Close(); err != nil {
			return err
		}
''','''		switch err := ww.Close(); {
		case err != nil:
			return err
		}
''')])
show('benign tail',[('annot_obj.go','''	_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /A <</S /URI /URI (%s)>>>>\\n",
		l.x, l.y, l.x+l.w, l.y-l.h, url)
	return err''','''	if _, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /A <</S /URI /URI (%s)>>>>\\n",
		l.x, l.y, l.x+l.w, l.y-l.h, url); err != nil {
		return err
	}
	return nil''')])
show('benign closure',[('content_obj.go','''		if err := ww.Close(); err != nil {
			return err
		}
''','''		var cerr error
		func() {
			cerr = ww.Close()
		}()
		if cerr != nil {
			return cerr
		}
''')])
show('benign must join',[('table.go','''	err := t.drawBorder(x1, y1, x2, y2, t.tableStyle.BorderStyle)
	if err != nil {
		return err
	}

	// Draw borders of the header
	return t.drawBorder(x1, y1, x2, y1+t.rowHeight, t.headerStyle.BorderStyle)''','''	err := t.drawBorder(x1, y1, x2, y2, t.tableStyle.BorderStyle)
	if err == nil {
		err = t.drawBorder(x1, y1, x2, y1+t.rowHeight, t.headerStyle.BorderStyle)
	}
	return err''')])
show('benign loop errs',[('table.go','''	err := t.drawBorder(x1, y1, x2, y2, t.tableStyle.BorderStyle)
	if err != nil {
		return err
	}

	// Draw borders of the header
	return t.drawBorder(x1, y1, x2, y1+t.rowHeight, t.headerStyle.BorderStyle)''','''	for i, st := range []BorderStyle{t.tableStyle.BorderStyle, t.headerStyle.BorderStyle} {
		yy := y2
		if i == 1 {
			yy = y1 + t.rowHeight
		}
		if err := t.drawBorder(x1, y1, x2, yy, st); err != nil {
			return err
		}
	}
	return nil''')])
