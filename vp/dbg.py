import sys,os
sys.path.insert(0,'/verif/vp')
import build,runner
h=sys.argv[1]
src,nsrc,opts,_,en=runner.parse_harness(h)
d='/tmp/dbg/'+h
exe=build.compile_native(["harness/"+h,"rt/native.cpp"]+src+[x for x in nsrc+runner.BASE_N if x not in src],d+"/n",d+"/exe")
print(exe,en)
