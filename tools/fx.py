import subprocess,sys
R='/repo/include/crab/'
def fix(msg,*edits):
    for f,a,b,*n in edits:
        s=open(R+f).read()
        want=n[0] if n else 1
        assert s.count(a)==want,(f,a,s.count(a))
        s=s.replace(a,b)
        open(R+f,'w').write(s)
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+msg])
