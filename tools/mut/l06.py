import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
E,S,T,G,H='ext_g_state_obj.go','smask_obj.go','transparency.go','gopdf.go','image_holder.go'
sel=sys.argv[1:]
def s(name,e):
    if not sel or any(x in name for x in sel): show(name,e)
s('id no blend',[(E,'	if extOpt.BlendMode != nil {\n		id += fmt.Sprintf("BM_%s;", *extOpt.BlendMode)\n	}\n','')])
s('id same tag',[(E,'"ca_%.3f;"','"CA_%.3f;"')])
s('id precision',[(E,'"ca_%.3f;"','"ca_%.1f;"')])
s('id no smask',[(E,'	if extOpt.SMaskIndex != nil {\n		id += fmt.Sprintf("SMask_%d_0_R;", *extOpt.SMaskIndex)\n	}\n','')])
s('id const',[(E,'fmt.Sprintf("BM_%s;", *extOpt.BlendMode)','"BM;"')])
s('id only if both',[(E,'	if extOpt.NonStrokingCa != nil {\n		id +=','	if extOpt.NonStrokingCa != nil && extOpt.StrokingCA == nil {\n		id +=')])
s('id else',[(E,'	if extOpt.BlendMode != nil {\n		id += fmt.Sprintf("BM_%s;", *extOpt.BlendMode)\n	}\n	if','	if extOpt.BlendMode != nil {\n		id += fmt.Sprintf("BM_%s;", *extOpt.BlendMode)\n	} else if')])
s('transparency id no mode',[(T,'fmt.Sprintf("%.3f_%s", t.Alpha, t.BlendModeType)','fmt.Sprintf("%.3f", t.Alpha)')])
s('transparency id prec',[(T,'"%.3f_%s"','"%.2f_%s"')])
s('smask id no subtype',[(S,'fmt.Sprintf("S_%s;G_%d_0_R", smask.Subtype, smask.TransparencyXObjectGroupIndex)','fmt.Sprintf("G_%d_0_R", smask.TransparencyXObjectGroupIndex)')])
s('smask adjacent',[(S,'"S_%s;G_%d_0_R"','"%s%d"')])
s('smask saved under other',[(S,'gp.curr.sMasksMap.Save(opts.GetId(), smask)','gp.curr.sMasksMap.Save(SMaskOptions{Subtype: opts.Subtype}.GetId(), smask)')])
s('ext saved w/o blend',[(E,'		gp.curr.extGStatesMap.Save(opts.GetId(), extGState)\n','		key := opts\n		key.BlendMode = nil\n		gp.curr.extGStatesMap.Save(key.GetId(), extGState)\n')])
s('ext looked up partial',[(E,'	extGState, ok := gp.curr.extGStatesMap.Find(opts)\n','	extGState, ok := gp.curr.extGStatesMap.Find(ExtGStateOptions{StrokingCA: opts.StrokingCA, NonStrokingCa: opts.NonStrokingCa, SMaskIndex: opts.SMaskIndex})\n')])
s('md5 part',[(H,'func newImageBuff(b []byte) (*imageBuff, error) {\n	h := md5.New()\n	_, err := h.Write(b)\n','func newImageBuff(b []byte) (*imageBuff, error) {\n	h := md5.New()\n	head := b\n	if len(head) > 4096 {\n		head = head[:4096]\n	}\n	_, err := h.Write(head)\n')])
s('base path',[(H,'	i.id = path\n','	i.id = filepath.Base(path)\n'),(H,'	"os"\n','	"os"\n	"path/filepath"\n')])
s('digest short',[(H,'	i.id = fmt.Sprintf("%x", h.Sum(nil))\n	i.Write(b)\n	return &i, nil\n}\n\nfunc newImageBuffByPath','	i.id = fmt.Sprintf("%.4x", h.Sum(nil))\n	i.Write(b)\n	return &i, nil\n}\n\nfunc newImageBuffByPath')])
s('len id',[(H,'	i.id = fmt.Sprintf("%x", h.Sum(nil))\n	i.Write(b)\n	return &i, nil\n}\n\nfunc newImageBuffByPath','	i.id = fmt.Sprintf("%d-%x", len(b), h.Sum(nil)[:2])\n	i.Write(b)\n	return &i, nil\n}\n\nfunc newImageBuffByPath')])
s('no reset',[(G,'	gp.curr.extGStatesMap = NewExtGStatesMap()\n',''),(G,'	gp.curr = Current{}\n','	ext := gp.curr.extGStatesMap\n	gp.curr = Current{}\n	gp.curr.extGStatesMap = ext\n')])
s('current ca',[(E,'			SMaskIndex: opts.SMaskIndex,\n		}\n','			SMaskIndex: opts.SMaskIndex,\n		}\n		if gp.curr.transparency != nil && extGState.BM == nil {\n			extGState.BM = &gp.curr.transparency.BlendModeType\n		}\n')])
s('image no mask test',[(G,'		if imgcache.isMask || imgcache.splittedMask != splittedMask {\n','		if imgcache.isMask {\n')])
s('image mask mixed',[(G,'		if imgcache.isMask || imgcache.splittedMask != splittedMask {\n','		if imgcache.splittedMask != splittedMask {\n')])
s('mask finds any',[(G,'		if !imgcache.isMask {\n			continue\n		}\n','')])
s('image by path only prefix',[(G,'		if img.ID() == imgcache.Path {\n			cacheImageIndex','		if strings.HasPrefix(img.ID(), imgcache.Path) {\n			cacheImageIndex')])
# benign
s('benign builder',[(E,'	id := ""\n	if extOpt.StrokingCA != nil {\n		id += fmt.Sprintf("CA_%.3f;", *extOpt.StrokingCA)\n	}\n','	id := extOpt.strokeID()\n'),(E,'func GetCachedExtGState','func (o ExtGStateOptions) strokeID() string {\n	if o.StrokingCA == nil {\n		return ""\n	}\n	return fmt.Sprintf("CA_%.3f;", *o.StrokingCA)\n}\n\nfunc GetCachedExtGState')])
s('benign parts join',[(E,'	id := ""\n','	var parts []string\n'),(E,'		id += fmt.Sprintf("CA_%.3f;", *extOpt.StrokingCA)','		parts = append(parts, fmt.Sprintf("CA_%.3f;", *extOpt.StrokingCA))'),(E,'		id += fmt.Sprintf("ca_%.3f;", *extOpt.NonStrokingCa)','		parts = append(parts, fmt.Sprintf("ca_%.3f;", *extOpt.NonStrokingCa))'),(E,'		id += fmt.Sprintf("BM_%s;", *extOpt.BlendMode)','		parts = append(parts, fmt.Sprintf("BM_%s;", *extOpt.BlendMode))'),(E,'		id += fmt.Sprintf("SMask_%d_0_R;", *extOpt.SMaskIndex)','		parts = append(parts, fmt.Sprintf("SMask_%d_0_R;", *extOpt.SMaskIndex))'),(E,'	return id\n','	return strings.Join(parts, "")\n'),(E,'	"io"\n','	"io"\n	"strings"\n')])
s('benign split create',[(S,'		smask = SMask{\n			S:                             string(opts.Subtype),\n			TransparencyXObjectGroupIndex: opts.TransparencyXObjectGroupIndex,\n		}\n		smask.Index = gp.addObj(smask)\n\n		gp.curr.sMasksMap.Save(opts.GetId(), smask)\n','		smask = newMask(opts, gp)\n'),(S,'func (s SMask) init','func newMask(opts SMaskOptions, gp *GoPdf) SMask {\n	m := SMask{\n		S:                             string(opts.Subtype),\n		TransparencyXObjectGroupIndex: opts.TransparencyXObjectGroupIndex,\n	}\n	m.Index = gp.addObj(m)\n	return gp.curr.sMasksMap.Save(opts.GetId(), m)\n}\n\nfunc (s SMask) init')])
s('benign early return',[(S,'	smask, ok := gp.curr.sMasksMap.Find(opts)\n	if !ok {\n		smask = SMask{\n			S:                             string(opts.Subtype),\n			TransparencyXObjectGroupIndex: opts.TransparencyXObjectGroupIndex,\n		}\n		smask.Index = gp.addObj(smask)\n\n		gp.curr.sMasksMap.Save(opts.GetId(), smask)\n	}\n\n	return smask\n','	if found, ok := gp.curr.sMasksMap.Find(opts); ok {\n		return found\n	}\n	smask := SMask{S: string(opts.Subtype), TransparencyXObjectGroupIndex: opts.TransparencyXObjectGroupIndex}\n	smask.Index = gp.addObj(smask)\n	gp.curr.sMasksMap.Save(opts.GetId(), smask)\n	return smask\n')])
s('benign digest helper',[(H,'	h := md5.New()\n	_, err := h.Write(b)\n	if err != nil {\n		return nil, err\n	}\n	var i imageBuff\n	i.id = fmt.Sprintf("%x", h.Sum(nil))\n','	var i imageBuff\n	i.id = digest(b)\n'),(H,'func (i *imageBuff) ID()','func digest(data []byte) string {\n	sum := md5.Sum(data)\n	return fmt.Sprintf("%x", sum)\n}\n\nfunc (i *imageBuff) ID()')])
s('benign reader via bytes',[(H,'	h := md5.New()\n	_, err = h.Write(b)\n	if err != nil {\n		return nil, err\n	}\n	var i imageBuff\n	i.id = fmt.Sprintf("%x", h.Sum(nil))\n	i.Write(b)\n	return &i, nil\n','	return newImageBuff(b)\n')])
s('benign find helper',[(G,'	for _, imgcache := range gp.curr.ImgCaches {\n		if imgcache.isMask || imgcache.splittedMask != splittedMask {\n			continue\n		}\n		if img.ID() == imgcache.Path {\n			cacheImageIndex = imgcache.Index\n			break\n		}\n	}\n','	if c, ok := gp.findImageCache(img.ID(), splittedMask); ok {\n		cacheImageIndex = c.Index\n	}\n'),(G,'func (gp *GoPdf) imageByHolder(','func (gp *GoPdf) findImageCache(id string, sp bool) (ImageCache, bool) {\n	for _, c := range gp.curr.ImgCaches {\n		if !c.isMask && c.splittedMask == sp && c.Path == id {\n			return c, true\n		}\n	}\n	return ImageCache{}, false\n}\n\nfunc (gp *GoPdf) imageByHolder(')])
s('benign make helper',[(G,'		imgobj := new(ImageObj)\n		if opts.Mask != nil {\n			imgobj.SplittedMask = true\n		}\n','		imgobj := &ImageObj{SplittedMask: splittedMask}\n')])
s('benign save helper',[(G,'			var imgcache ImageCache\n			imgcache.Index = index\n			imgcache.Path = img.ID()\n			imgcache.Rect = opts.Rect\n			imgcache.splittedMask = splittedMask\n			gp.curr.ImgCaches[index] = imgcache\n			gp.curr.CountOfImg++\n','			gp.keepImage(ImageCache{Index: index, Path: img.ID(), Rect: opts.Rect, splittedMask: splittedMask})\n'),(G,'func (gp *GoPdf) imageByHolder(','func (gp *GoPdf) keepImage(c ImageCache) {\n	gp.curr.ImgCaches[c.Index] = c\n	gp.curr.CountOfImg++\n}\n\nfunc (gp *GoPdf) imageByHolder(')])
