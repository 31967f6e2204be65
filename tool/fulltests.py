import sys,glob,os
sys.path.insert(0,'/verif/lib')
import pipeline as p, time
w=p.Work(); t=time.time()
g=p.generate(w)
src=p.sources('ast')+p.sources('parser')+[g+'/mizugaki/parser/sql_parser_generated.cpp',g+'/mizugaki/parser/sql_scanner_generated.cpp']
tests=[f for f in glob.glob('/repo/test/mizugaki/parser/*.cpp')+glob.glob('/repo/test/mizugaki/ast/**/*.cpp',recursive=True)+glob.glob('/repo/test/mizugaki/*.cpp')]
o1,f1=p.compile_objs(w,src)
o2,f2=p.compile_objs(w,tests,['-I/repo/test'],sub='to')
for f,e in f1+f2: print(f,[l for l in e.split('\n') if 'error' in l][:2])
ok,e=p.link(w,o1+o2,w.path('t'),['-lgtest','-lgtest_main','-lpthread']); print(ok,e[-1500:])
import subprocess
r=subprocess.run([w.path('t')],stdout=subprocess.PIPE,stderr=subprocess.STDOUT); out=r.stdout.decode()
open('/tmp/tt/out','w').write(out); print(out[-3000:])
w.close()
