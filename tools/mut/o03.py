import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
P,D,G,A,M,I='procset_obj.go','pdf_dictionary_obj.go','gopdf.go','arabic_helper.go','subset_font_obj.go','image_holder.go'
show('procset unsorted',[(P,'	sort.Strings(tplNames)\n',''),(P,'	"sort"\n','')])
show('procset direct',[(P,'	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))\n	for tplName := range pr.ImportedTemplateIds {\n		tplNames = append(tplNames, tplName)\n	}\n	sort.Strings(tplNames)\n	for _, tplName := range tplNames {\n','	for tplName := range pr.ImportedTemplateIds {\n'),(P,'	"sort"\n','')])
show('tags sorted only big',[(D,'	sort.Strings(tags) //order\n','	if len(tags) > 12 {\n		sort.Strings(tags)\n	}\n')])
show('sort after use',[(D,'	sort.Strings(tags) //order\n	idx := 0\n','	first := tags[0]\n	sort.Strings(tags) //order\n	if first == "glyf" {\n		buff.SetPosition(0)\n	}\n	idx := 0\n')])
show('time default',[(G,'	if !zerotime.Equal(gp.info.CreationDate) {\n','	if zerotime.Equal(gp.info.CreationDate) {\n		gp.info.CreationDate = time.Now()\n	}\n	if !zerotime.Equal(gp.info.CreationDate) {\n')])
show('templates pdfobjs',[(G,'		procset.ImportedTemplateIds[tplName] = tplID\n','		procset.ImportedTemplateIds[tplName] = tplID\n		procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: tplID - 1})\n')])
show('import objects range',[(G,'	for i := startObjID; i < len(objs)+startObjID; i++ {\n		if objs[i] != "" {\n			gp.addObj(&ImportedObj{Data: objs[i]})\n		}\n	}\n','	for _, data := range objs {\n		if data != "" {\n			gp.addObj(&ImportedObj{Data: data})\n		}\n	}\n')])
show('harf first match duplicates',[('arabic_alphabet.go','Final:     \'\\ufe82\'}','Final:     \'\\ufe84\'}')])
show('image cache weaker match',[(G,'		if img.ID() == imgcache.Path {\n			cacheImageIndex','		if len(img.ID()) == len(imgcache.Path) {\n			cacheImageIndex')])
show('image cache prefix',[(G,'		if img.ID() == imgcache.Path {\n			cacheImageIndex','		if strings.HasPrefix(imgcache.Path, img.ID()) {\n			cacheImageIndex')])
show('last wins idx',[(G,'			cacheImageIndex = imgcache.Index\n			break\n','			cacheImageIndex = imgcache.Index\n			_ = 0\n')])
show('pointer print id',[(I,'	i.id = path\n','	i.id = fmt.Sprintf("%s%p", path, &i)\n')])
show('holder printed',[(G,'			imgcache.Path = img.ID()\n','			imgcache.Path = fmt.Sprint(&img)\n')])
show('font sums map of floats',[(M,'func (s *SubsetFontObj) init','func sumAll(m map[int]float64) float64 {\n	t := 0.0\n	for _, v := range m {\n		t += v\n	}\n	return t\n}\n\nfunc (s *SubsetFontObj) init')])
show('benign sumInts',[(M,'func (s *SubsetFontObj) init','func sumAll(m map[int]int) int {\n	t := 0\n	for _, v := range m {\n		t += v\n	}\n	return t\n}\n\nfunc (s *SubsetFontObj) init')])
show('benign max',[(M,'func (s *SubsetFontObj) init','func maxAll(m map[int]int) int {\n	t := -1\n	for k := range m {\n		if k > t {\n			t = k\n		}\n	}\n	return t\n}\n\nfunc (s *SubsetFontObj) init')])
show('benign keys helper',[(P,'	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))\n	for tplName := range pr.ImportedTemplateIds {\n		tplNames = append(tplNames, tplName)\n	}\n	sort.Strings(tplNames)\n	for _, tplName := range tplNames {\n','	for _, tplName := range keysOf(pr.ImportedTemplateIds) {\n'),(P,'func (pr *ProcSetObj) init','func keysOf(m map[string]int) []string {\n	names := []string{}\n	for n := range m {\n		names = append(names, n)\n	}\n	sort.Slice(names, func(i, j int) bool { return names[i] < names[j] })\n	return names\n}\n\nfunc (pr *ProcSetObj) init')])
show('benign keys helper sorted by caller',[(P,'	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))\n	for tplName := range pr.ImportedTemplateIds {\n		tplNames = append(tplNames, tplName)\n	}\n	sort.Strings(tplNames)\n','	tplNames := keysOf(pr.ImportedTemplateIds)\n	sort.Strings(tplNames)\n'),(P,'func (pr *ProcSetObj) init','func keysOf(m map[string]int) []string {\n	names := []string{}\n	for n := range m {\n		names = append(names, n)\n	}\n	return names\n}\n\nfunc (pr *ProcSetObj) init')])
show('keys helper not sorted',[(P,'	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))\n	for tplName := range pr.ImportedTemplateIds {\n		tplNames = append(tplNames, tplName)\n	}\n	sort.Strings(tplNames)\n','	tplNames := keysOf(pr.ImportedTemplateIds)\n'),(P,'	"sort"\n',''),(P,'func (pr *ProcSetObj) init','func keysOf(m map[string]int) []string {\n	names := []string{}\n	for n := range m {\n		names = append(names, n)\n	}\n	return names\n}\n\nfunc (pr *ProcSetObj) init')])
show('benign index keys',[(D,'	var tags []string\n	for tag := range tables {\n		tags = append(tags, tag) //copy all tag\n	}\n','	tags := make([]string, len(tables))\n	n := 0\n	for tag := range tables {\n		tags[n] = tag\n		n++\n	}\n')])
show('benign find helper',[(G,'	for _, imgcache := range gp.curr.ImgCaches {\n		if imgcache.isMask || imgcache.splittedMask != splittedMask {\n			continue\n		}\n		if img.ID() == imgcache.Path {\n			cacheImageIndex = imgcache.Index\n			break\n		}\n	}\n','	if c, ok := gp.findImageCache(img.ID(), splittedMask); ok {\n		cacheImageIndex = c.Index\n	}\n'),(G,'func (gp *GoPdf) imageByHolder(','func (gp *GoPdf) findImageCache(id string, sp bool) (ImageCache, bool) {\n	for _, c := range gp.curr.ImgCaches {\n		if !c.isMask && c.splittedMask == sp && c.Path == id {\n			return c, true\n		}\n	}\n	return ImageCache{}, false\n}\n\nfunc (gp *GoPdf) imageByHolder(')])
show('benign find helper idx',[(G,'	for _, imgcache := range gp.curr.ImgCaches {\n		if imgcache.isMask || imgcache.splittedMask != splittedMask {\n			continue\n		}\n		if img.ID() == imgcache.Path {\n			cacheImageIndex = imgcache.Index\n			break\n		}\n	}\n','	cacheImageIndex = gp.findImageCache(img, splittedMask)\n'),(G,'func (gp *GoPdf) imageByHolder(','func (gp *GoPdf) findImageCache(img ImageHolder, sp bool) int {\n	for k := range gp.curr.ImgCaches {\n		c := gp.curr.ImgCaches[k]\n		if c.isMask || c.splittedMask != sp || c.Path != img.ID() {\n			continue\n		}\n		return c.Index\n	}\n	return -1\n}\n\nfunc (gp *GoPdf) imageByHolder(')])
show('benign harf if-chain',[(A,'	switch char {\n	case c.Unicode:\n		return true\n	case c.Beginning:\n		return true\n	case c.Isolated:\n		return true\n	case c.Middle:\n		return true\n	case c.Final:\n		return true\n	default:\n		return false\n	}\n','	return char == c.Unicode || char == c.Beginning || char == c.Isolated || char == c.Middle || char == c.Final\n')])
show('benign harf in',[(A,'	switch char {\n	case c.Unicode:\n		return true\n	case c.Beginning:\n		return true\n	case c.Isolated:\n		return true\n	case c.Middle:\n		return true\n	case c.Final:\n		return true\n	default:\n		return false\n	}\n','	switch char {\n	case c.Unicode, c.Beginning, c.Isolated, c.Middle, c.Final:\n		return true\n	}\n	return false\n')])
show('benign harf search by value',[(A,'	for _, s := range arabicAlphabet {\n		if s.equals(char) {\n			return s\n		}\n	}\n','	for k := range arabicAlphabet {\n		s := arabicAlphabet[k]\n		if !s.equals(char) {\n			continue\n		}\n		return s\n	}\n')])
show('benign exists helper',[(A,'		for s := range rightJoiningOnlyLetters { // if its an Harf which is must be separated\n			if s.equals(previousChar) {\n				return getHarf(currentChar).Beginning // return the default shape\n			}\n		}\n','		if joinsRight(previousChar) {\n			return getHarf(currentChar).Beginning\n		}\n'),(A,'// findPreviousNonTashkeel finds','func joinsRight(char rune) bool {\n	found := false\n	for s := range rightJoiningOnlyLetters {\n		if s.equals(char) {\n			found = true\n		}\n	}\n	return found\n}\n\n// findPreviousNonTashkeel finds')])
show('goroutine writes',[(G,'	go func() {\n','	go func() {\n		gp.curr.CountOfImg++\n')])
show('user home',[(I,'	i.id = path\n','	i.id = os.Getenv("HOME") + path\n')])
TG='	sort.Strings(tags) //order\n'
show('sort by length',[(D,TG,'	sort.Slice(tags, func(i, j int) bool { return len(tags[i]) < len(tags[j]) })\n')])
show('sort folded',[(D,TG,'	sort.Slice(tags, func(i, j int) bool { return strings.ToLower(tags[i]) < strings.ToLower(tags[j]) })\n'),(D,'	"sort"\n','	"sort"\n	"strings"\n')])
show('benign sort slice',[(D,TG,'	sort.Slice(tags, func(i, j int) bool { return tags[i] < tags[j] })\n')])
show('benign sort stringslice',[(D,TG,'	sort.Sort(sort.StringSlice(tags))\n')])
