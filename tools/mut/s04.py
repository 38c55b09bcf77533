import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
import subprocess
def g(p): print(subprocess.run('grep -n %r /repo/*.go | head -5'%p,shell=True,capture_output=True,text=True).stdout)
show('no parent',[('page_obj.go','	io.WriteString(w, "  /Parent 2 0 R\\n")\n','	if !p.pageOption.isEmpty() {\n		io.WriteString(w, "  /Parent 2 0 R\\n")\n	}\n')])
show('no stemv',[('subfont_descriptor_obj.go','	fmt.Fprintf(w, "/StemV %d\\n"','	fmt.Fprintf(w, "/StemH %d\\n"')])
show('no rect',[('annot_obj.go','/Rect [','/Rct [')])
show('info: Size',[('gopdf.go','	fmt.Fprintf(w, "/Size %d\\n", max+1)\n	io.WriteString(w, "/Root 1 0 R\\n")\n	if gp','	io.WriteString(w, "/Root 1 0 R\\n")\n	if gp')])
show('no id',[('gopdf.go','		io.WriteString(w, "/ID [()()]\\n")\n','')])
