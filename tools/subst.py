# EOL-preserving substitutions: edit(path, [(old,new),...])
def edit(path, subs):
    s=open(path,'rb').read().decode('latin-1')
    crlf='\r\n' in s
    if crlf: 
        assert s.count('\r\n')==s.count('\n') or True
    mixed = crlf and s.count('\r\n')!=s.count('\n')
    for a,b in subs:
        if mixed:
            a1=a if s.count(a)==1 else a.replace('\n','\r\n')
            b1=b if a1==a else b.replace('\n','\r\n')
        elif crlf: a1=a.replace('\n','\r\n'); b1=b.replace('\n','\r\n')
        else: a1=a;b1=b
        assert s.count(a1)==1,(path,s.count(a1),a)
        s=s.replace(a1,b1)
    open(path,'wb').write(s.encode('latin-1'))

def fedit(path, pairs):
    """like edit, but `old` is matched ignoring indentation, trailing blanks and blank lines"""
    import re
    s = open(path, newline='').read()
    crlf = s.count('\r\n') * 2 > s.count('\n')
    s = s.replace('\r\n', '\n') if crlf else s
    for old, new in pairs:
        ls = [l.strip() for l in old.split('\n') if l.strip()]
        pat = r'[ \t]*' + r'[ \t]*\n(?:[ \t]*\n)*[ \t]*'.join(re.escape(l) for l in ls) + r'[ \t]*\n'
        m = list(re.finditer(pat, s)); assert len(m) == 1, (path, len(m), old)
        s = s[:m[0].start()] + new.rstrip('\n') + '\n' + s[m[0].end():]
    if crlf: s = s.replace('\n', '\r\n')
    open(path, 'w', newline='').write(s)
