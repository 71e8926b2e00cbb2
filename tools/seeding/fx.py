import subprocess,re
def sub(f,a,b,n=1):
    s=open(f).read(); assert s.count(a)>=1,(f,a); assert s.count(a)==n,(f,a,s.count(a)); open(f,'w').write(s.replace(a,b))
def commit(msg):
    r=subprocess.run(['/tmp/t.sh'],capture_output=True,text=True); print(msg.splitlines()[0],'=>',r.stdout.strip().splitlines()[0])
    assert 'missing []' in r.stdout,r.stdout
    subprocess.check_call(['git','-C','/repo','commit','-qam',msg])
