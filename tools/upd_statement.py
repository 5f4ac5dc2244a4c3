import re
p='/verif/tools/properties_table.py'
s=open(p).read()
def stmt(pid, text, title=None, qtext=None):
    global s
    i=s.index('prop("%s"'%pid); j=s.index('\nprop(', i) if '\nprop(' in s[i:] else len(s)
    blk=s[i:j]
    m=re.match(r'prop\("\w+", (".*?"),\n (".*?"),\n (\[.*?\]),\n (".*?"),\n', blk, re.S)
    t=m.group(1) if title is None else '"%s"'%title
    q=m.group(4) if qtext is None else '"%s"'%qtext
    new='prop("%s", %s,\n "%s",\n %s,\n %s,\n'%(pid,t,text.replace('"','\\"'),m.group(3),q)
    s=s[:i]+new+blk[m.end():]+s[j:]
exec(open('/tmp/upd_items.py').read())
open(p,'w').write(s)
