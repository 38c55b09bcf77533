from mut import show
show('widths lazily',[('subset_font_obj.go','''	return width * 1000 / unitsPerEm
''','''	width = width * 1000 / unitsPerEm
	s.ttfp.Widths()[glyphIndex] = width
	return width
''')])
show('kern cached',[('subset_font_obj.go','''	if kval, ok := k.Kerning[left]; ok {
		return true, &kval
	}
''','''	if kval, ok := k.Kerning[left]; ok {
		return true, &kval
	}
	k.Kerning[left] = core.KernValue{}
''')])
show('sort groups',[('subset_font_obj.go','''	gTbs := s.ttfp.GroupingTables()
''','''	gTbs := s.ttfp.GroupingTables()
	sort.Slice(gTbs, func(i, j int) bool { return gTbs[i].StartCharCode < gTbs[j].StartCharCode })
'''),('subset_font_obj.go','"io"','"io"\n\t"sort"')])
show('tables in place',[('pdf_dictionary_obj.go','''	tables := make(map[string]core.TableDirectoryEntry)
''','''	tables := ttfp.GetTables()
	for k := range tables {
		if k == "name" || k == "post" {
			delete(tables, k)
		}
	}
''')])
show('head in place',[('pdf_dictionary_obj.go','''	tableCount := len(tables)
''','''	head := ttfp.FontData()[tables["head"].Offset:]
	head[8], head[9], head[10], head[11] = 0, 0, 0, 0
	tableCount := len(tables)
''')])
show('loca in place',[('pdf_dictionary_obj.go','''	locaTable := make([]int, numGlyphs+1)
''','''	locaTable := make([]int, numGlyphs+1)
	for i := range ttfp.LocaTable {
		if i > 0 && ttfp.LocaTable[i] < ttfp.LocaTable[i-1] {
			ttfp.LocaTable[i] = ttfp.LocaTable[i-1]
		}
	}
''')])
show('kerning switched',[('subset_font_obj.go','''	if !s.ttfFontOption.UseKerning {
		return false, nil
	}
''','''	s.ttfp.SetUseKerning(s.ttfFontOption.UseKerning)
	if !s.ttfFontOption.UseKerning {
		return false, nil
	}
''')])
show('glyph data padded by append',[('pdf_dictionary_obj.go','''	var data []byte
	i := 0
	for i < count {
		data = append(data, ttfp.FontData()[start+i])
		i++
	}
	return data
''','''	data := ttfp.FontData()[start:next]
	for count%4 != 0 {
		data = append(data, 0)
		count++
	}
	return data
''')])
show('write bytes pads source',[('strhelper.go' if False else 'buff_write.go','func WriteBytes(','func WriteBytesX(b *Buff) {}\nfunc WriteBytes(')])
show('benign slice read',[('pdf_dictionary_obj.go','''	var data []byte
	i := 0
	for i < count {
		data = append(data, ttfp.FontData()[start+i])
		i++
	}
	return data
''','''	return ttfp.FontData()[start : start+count]
''')])
show('benign copy tables',[('pdf_dictionary_obj.go','''	tables := make(map[string]core.TableDirectoryEntry)
''','''	tables := make(map[string]core.TableDirectoryEntry, len(ttfp.GetTables()))
	for k, v := range ttfp.GetTables() {
		tables[k] = v
	}
	tables["glyf"] = core.TableDirectoryEntry{}
	clear(tables)
''')])
