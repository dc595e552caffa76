"""regenerate assets in template.go from .tmpl files (go-bindata format)"""
import re,gzip,hashlib,io,os,sys
R=os.environ.get('GOSYM_REPO','/repo')+'/gengokit/template/'
s=open(R+'template.go',encoding='latin-1').read()
def dec(lit):
    return bytes(lit,'latin-1').decode('unicode_escape').encode('latin-1')
pat=re.compile(r'var (_\w+) = \[\]byte\("((?:[^"\\]|\\.)*)"\)')
assets={}
for m in pat.finditer(s):
    v=m.group(1)
    fn=re.search(r'bindataRead\(\s*'+v+r',\s*"([^"]+)"',s).group(1)
    data=gzip.decompress(dec(m.group(2)))
    assets[fn]=(v,data)
for fn,(v,data) in assets.items():
    cur=open(R+'NAME-service/'+fn,'rb').read()
    same=cur==data
    print(fn,len(data),same)
    if same or len(sys.argv)<2: continue
    buf=io.BytesIO()
    with gzip.GzipFile(fileobj=buf,mode='wb',mtime=0,filename='') as g: g.write(cur)
    b=bytearray(buf.getvalue()); b[8]=0; b[9]=0xff
    lit=''.join('\\x%02x'%c for c in b)
    s=re.sub(r'(var '+v+r' = \[\]byte\(")((?:[^"\\]|\\.)*)("\))',lambda m:m.group(1)+lit+m.group(3),s)
    dg=hashlib.sha256(cur).digest()
    dl=', '.join('0x%x'%c for c in dg)
    s=re.sub(r'(name: "'+re.escape(fn)+r'", size: )\d+',lambda m:m.group(1)+str(len(cur)),s)
    i=s.index('name: "'+fn+'", size'); j=s.index('digest: [32]uint8{',i)+len('digest: [32]uint8{'); k=s.index('}',j)
    s=s[:j]+dl+s[k:]
    n=len(cur); old=re.search(r'// NAME-service/'+re.escape(fn)+r' \(([^)]*)\)',s).group(0)
    size='%.3fkB'%(n/1000) if n>=1000 else '%dB'%n
    s=s.replace(old,'// NAME-service/'+fn+' ('+size+')')
if len(sys.argv)>1: open(R+'template.go','w',encoding='latin-1').write(s)
