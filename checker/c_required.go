package main

import (
	"sort"
	"strings"
)

func init() {
	checks["S04"] = checkS04
}

// reqKinds lists, per kind of object, the entries ISO 32000-1 requires and the value descriptions
// they may have. A description matches by prefix; alternatives are separated by '|'.
var reqKinds = map[string][][2]string{
	"catalog":         {{"Type", "name:Catalog"}, {"Pages", "ref"}},
	"page tree":       {{"Type", "name:Pages"}, {"Kids", "array:"}, {"Count", "int"}},
	"page":            {{"Type", "name:Page"}, {"Parent", "ref"}, {"Resources", "ref|dict"}},
	"composite font":  {{"Type", "name:Font"}, {"BaseFont", "name:"}, {"Encoding", "name:|ref"}, {"DescendantFonts", "array:1:ref"}},
	"CID font":        {{"Type", "name:Font"}, {"BaseFont", "name:"}, {"CIDSystemInfo", "dict|ref"}, {"FontDescriptor", "ref"}},
	"font descriptor": {{"Type", "name:FontDescriptor"}, {"FontName", "name:"}, {"Flags", "int"}, {"FontBBox", "array:4:"}, {"ItalicAngle", "int|real"}, {"Ascent", "int|real"}, {"Descent", "int|real"}, {"CapHeight", "int|real"}, {"StemV", "int|real"}},
	"image":           {{"Subtype", "name:Image"}, {"Width", "int"}, {"Height", "int"}, {"ColorSpace", "name:|array:|ref"}, {"BitsPerComponent", "int"}, {"Length", "int"}},
	"form":            {{"Subtype", "name:Form"}, {"BBox", "array:4:"}, {"Length", "int"}},
	"annotation":      {{"Subtype", "name:"}, {"Rect", "array:4:"}},
	"outline item":    {{"Title", "str"}, {"Parent", "ref"}},
	"outline root":    {{"Type", "name:Outlines"}, {"Count", "int"}},
	"encryption":      {{"Filter", "name:Standard"}, {"V", "int"}, {"R", "int"}, {"O", "str"}, {"U", "str"}, {"P", "int"}},
	"graphics state":  {{"Type", "name:ExtGState"}},
	"soft mask":       {{"S", "name:"}, {"G", "ref"}},
	"resources":       {},
	"stream":          {{"Length", "int"}},
	"colour space":    {},
	"trailer":         {{"Size", "int"}, {"Root", "ref"}},
}

// entries of the sub-dictionaries that have requirements of their own
var reqSub = map[string][][2]string{
	"CIDSystemInfo": {{"Registry", "str"}, {"Ordering", "str"}, {"Supplement", "int"}},
	"A":             {{"S", "name:"}},
	"Group":         {{"S", "name:"}},
	"SMask":         {{"S", "name:"}, {"G", "ref"}},
	"CIDToGIDMap":   {},
}

// lengths of array values that have a fixed number of elements
var arrayLen = map[string]string{"MediaBox": "array:4:", "TrimBox": "array:4:", "CropBox": "array:4:", "BBox": "array:4:", "Rect": "array:4:", "FontBBox": "array:4:", "Matrix": "array:6:"}

func matchDesc(have, want string) bool {
	if have == "trusted" {
		return true
	}
	for _, w := range strings.Split(want, "|") {
		if strings.HasPrefix(have, w) && (strings.HasSuffix(w, ":") || len(have) == len(w) || have[len(w)] == ':' || strings.HasPrefix(w, "name:") && have == w || strings.HasPrefix(w, "array:")) {
			return true
		}
	}
	return false
}

func entries(keys []string) map[string]string {
	m := map[string]string{}
	for _, k := range keys {
		n, d, _ := strings.Cut(k, "=")
		m[n] = d
	}
	return m
}

// kindOf classifies a completed object by its own Type and Subtype (or by its shape, for the kinds
// that have none).
func kindOf(o *objParser) string {
	if o.top == "trusted" {
		return "imported"
	}
	if o.top == "null" {
		return "null"
	}
	if strings.HasPrefix(o.top, "array:4:dict,name") || strings.HasPrefix(o.top, "array:") && strings.Contains(o.top, "name") {
		return "colour space"
	}
	if !strings.HasPrefix(o.top, "dict") {
		return ""
	}
	e := entries(o.keys)
	ty, sub := strings.TrimPrefix(e["Type"], "name:"), strings.TrimPrefix(e["Subtype"], "name:")
	switch ty {
	case "Catalog":
		return "catalog"
	case "Pages":
		return "page tree"
	case "Page":
		return "page"
	case "FontDescriptor":
		return "font descriptor"
	case "Outlines":
		return "outline root"
	case "ExtGState":
		return "graphics state"
	case "Annot":
		return "annotation"
	case "Mask":
		return "soft mask"
	case "Font":
		switch {
		case sub == "Type0":
			return "composite font"
		case strings.HasPrefix(sub, "CIDFontType"):
			return "CID font"
		}
		return ""
	}
	switch sub {
	case "Image":
		return "image"
	case "Form":
		return "form"
	case "Link":
		return "annotation"
	}
	if ty != "" || sub != "" {
		return ""
	}
	has := func(ks ...string) bool {
		for _, k := range ks {
			if e[k] != "" {
				return true
			}
		}
		return false
	}
	only := func(ks ...string) bool {
		for k := range e {
			ok := false
			for _, x := range ks {
				ok = ok || x == k
			}
			if !ok {
				return false
			}
		}
		return true
	}
	switch {
	case o.phase == 3 && only("Length", "Filter", "DecodeParms", "Length1"):
		return "stream"
	case o.phase == 3:
		return ""
	case only("ProcSet", "Font", "XObject", "ExtGState", "ColorSpace", "Pattern", "Shading") && has("Font", "XObject"):
		return "resources"
	case has("V", "R", "O", "U", "P") && (strings.HasPrefix(e["Filter"], "name:Standard") || has("O", "U")):
		return "encryption"
	case has("Title", "Dest") && has("Title", "Parent", "Prev", "Next"):
		return "outline item"
	}
	return ""
}

func checkS04(p *Prog) *Result {
	e := p.emission()
	res := newResult("the dictionary entries collected on every error-free path of every object writer and of the trailer are compared with the table of entries ISO 32000-1 requires for that kind of object", append([]string{"the kind of an object is the one its own Type and Subtype state; streams, resource dictionaries, colour spaces, outline items and the encryption dictionary are recognised by their other entries"}, emitAssume...)...)
	kinds := map[string]int{}
	pageOwn, treeBox := true, true
	var pageFn, treeFn string
	verify := func(fn, pos, who, kind string, keys []string) {
		kinds[kind]++
		en := entries(keys)
		for _, rq := range reqKinds[kind] {
			d, ok := en[rq[0]]
			if !ok {
				res.add("missing", fn, who+": "+rq[0], pos, "on a path through the writer of %s the %s dictionary has no /%s entry", who, kind, rq[0])
				continue
			}
			if !matchDesc(d, rq[1]) {
				res.add("type", fn, who+": "+rq[0], pos, "/%s of the %s dictionary written by %s is %s, required is %s", rq[0], kind, who, d, rq[1])
			}
		}
		for k, d := range en {
			if sub, ok := reqSub[k]; ok && strings.HasPrefix(d, "dict") {
				se := entries(strings.Split(strings.TrimPrefix(strings.TrimPrefix(d, "dict"), ":"), "&"))
				for _, rq := range sub {
					sd, ok := se[rq[0]]
					if !ok {
						res.add("missing", fn, who+": "+k+"/"+rq[0], pos, "/%s of the %s dictionary written by %s has no /%s entry", k, kind, who, rq[0])
					} else if !matchDesc(sd, rq[1]) {
						res.add("type", fn, who+": "+k+"/"+rq[0], pos, "/%s/%s of the %s dictionary written by %s is %s, required is %s", k, rq[0], kind, who, sd, rq[1])
					}
				}
			}
			if want, ok := arrayLen[k]; ok && !matchDesc(d, want+"|ref") {
				res.add("type", fn, who+": "+k, pos, "/%s of the %s dictionary written by %s is %s, required is %s", k, kind, who, d, want)
			}
		}
		switch kind {
		case "annotation":
			if matchDesc(en["Subtype"], "name:Link") && en["A"] == "" && en["Dest"] == "" {
				res.add("missing", fn, who+": A or Dest", pos, "a link annotation written by %s has neither /A nor /Dest", who)
			}
		case "page":
			if pageFn = fn; !strings.HasPrefix(en["MediaBox"], "array:4:") {
				pageOwn = false
			}
		case "page tree":
			if treeFn = fn; !strings.HasPrefix(en["MediaBox"], "array:4:") {
				treeBox = false
			}
			if d := en["Kids"]; d != "" && d != "array:0:" && !strings.Contains(d, "ref") {
				res.add("type", fn, who+": Kids", pos, "the page tree's /Kids is %s, required are references", d)
			}
		case "trailer":
			if en["Encrypt"] != "" && !matchDesc(en["ID"], "array:2:") {
				res.add("missing", fn, who+": ID", pos, "a trailer with /Encrypt has no /ID array of two strings")
			}
		}
	}
	paths := 0
	for _, f := range e.liveObj {
		run := e.objs[f]
		for _, s := range run.finals {
			o, ok := s.m.ps.(*objParser)
			if !ok || o.phase == 0 || o.phase == 2 {
				continue // reported by S03
			}
			paths++
			k := kindOf(o)
			if k == "" {
				res.add("kind", fname(f), recvName(f), p.pos(f.Pos()), "%s writes an object whose kind is not recognised by its entries %v", recvName(f), o.keys)
				continue
			}
			if k == "null" || k == "imported" {
				kinds[k]++
				continue
			}
			verify(fname(f), p.pos(f.Pos()), recvName(f), k, o.keys)
		}
	}
	run := p.fileAnalysis()
	if run.err != "" {
		res.add("anchor", "-", "document writer", "-", "%s", run.err)
	} else {
		n := 0
		for _, s := range run.finals {
			f, ok := s.m.ps.(*fileParser)
			if !ok || f.obj == nil || f.ph != 'z' {
				continue
			}
			n++
			verify(fname(run.fn), p.pos(run.fn.Pos()), "trailer", "trailer", f.obj.keys)
		}
		res.floor("trailer path classes", n, 1)
	}
	if pageFn != "" && !pageOwn && !treeBox {
		res.add("missing", pageFn, "MediaBox", "-", "a page can be written without /MediaBox while the page tree (%s) can be written without one to inherit", treeFn)
	}
	res.Counts["object path classes compared"] = paths
	var ks []string
	for k, n := range kinds {
		ks = append(ks, k)
		_ = n
	}
	sort.Strings(ks)
	for _, k := range ks {
		res.sample("kind %s: %d path classes, required %v", k, kinds[k], reqKinds[k])
	}
	for k := range reqKinds {
		if kinds[k] == 0 {
			res.add("coverage", "-", k, "-", "no object of kind %s is written by any object writer", k)
		}
	}
	res.floor("object kinds", len(kinds), 15)
	// a path that could not be interpreted hides its entries
	res.addRuns(e.objs, e.liveObj, "unresolved")
	return res
}
