"""Writes harness/genapi/pb, harness/srv/pb and harness/cli/pb: the definitions the generated-code checks use
(api.proto) and the Go code protoc-gen-go and protoc-gen-go-grpc give for it
(without descriptors and reflection)."""
import os
D='/verif/harness/genapi/pb/'
KINDS=[("I32","int32","int32","varint"),("I64","int64","int64","varint"),("U32","uint32","uint32","varint"),("U64","uint64","uint64","varint"),
 ("Flag","bool","bool","varint"),("F32","float","float32","fixed32"),("F64","double","float64","fixed64"),("Str","string","string","bytes"),("Tone","Color","Color","varint")]
KNOWN={"google.protobuf.StringValue":"wrapperspb.StringValue","google.protobuf.Int64Value":"wrapperspb.Int64Value","google.protobuf.Timestamp":"timestamppb.Timestamp"}
def gname(t): return KNOWN.get(t) or (t if t in GT or t.startswith("map<") else camel(t))
def camel(s):
    """the Go name protoc-gen-go gives"""
    o=""
    i=0
    while i<len(s):
        c=s[i]
        if c=="." : o+="_"
        elif c=="_" and i==0: o+="X"
        elif c=="_" and i+1<len(s) and s[i+1].islower(): pass
        elif c.isdigit(): o+=c
        else:
            o+=c.upper()
            while i+1<len(s) and s[i+1].islower(): i+=1; o+=s[i]
        i+=1
    return o
def fname(f): c=camel(f); return c+"_" if c in ("Reset","String","ProtoMessage","Marshal","Unmarshal","ExtensionRangeArray","ExtensionMap","Descriptor") else c
def lcamel(s):
    """the JSON name"""
    o="";up=False
    for c in s:
        if c=="_": up=True; continue
        o+=c.upper() if up else c
        up=False
    return o
ENUMS=[("Color",[("RED",0),("GREEN",1),("DARK",-5)])]
# message: (name, [(field, prototype, label)])   label: "", optional, repeated, oneof:<name>
msgs=[]
rpcs=[]
for n,pt,gt,w in KINDS:
    msgs.append((n+"Req",[("p",pt,""),("q",pt,""),("o",pt,"optional"),("r",pt,"repeated")]))
    rpcs.append((n,n+"Req","Res",[("get",f"/{n.lower()}/{{p}}","")]))
msgs.append(("AltReq",[("num","int32","oneof:alt"),("big_num","uint64","oneof:alt"),("txt","string","oneof:alt"),("flag","bool","oneof:alt"),("tone","Color","oneof:alt"),("blob","bytes","oneof:alt"),("sub","Sub","oneof:alt"),("name","string","")]))
rpcs.append(("Alt","AltReq","Res",[("get","/alt","")]))
msgs.append(("Sub",[("text","string",""),("num","int32","")]))
msgs.append(("BodyReq",[("id","string",""),("count","int32",""),("tags","string","repeated"),("tone","Color",""),("sub","Sub","")]))
rpcs.append(("Body","BodyReq","Res",[("post","/body/{id}/full","*")]))
msgs.append(("PartReq",[("user_id","int64",""),("sub","Sub",""),("page_size","uint32",""),("marks","string","repeated")]))
rpcs.append(("Part","PartReq","Res",[("put","/part/{user_id}","sub")]))
msgs.append(("ManyReq",[("a","string",""),("b","int32",""),("orig_name","string",""),("type","string","")]))
rpcs.append(("Many","ManyReq","Res",[("get","/many/{a}/x/{b}",""),("post","/many/{type}","*"),("delete","/many/{b}/y",""),("patch","/many/z/{orig_name}","a"),("custom:HEAD","/many/head/{b}","")]))
rpcs.append(("StrMany","ManyReq","Res",None))
msgs.append(("NextReq",[("id","string",""),("num","int32",""),("step","string","")]))
rpcs.append(("Next","NextReq","Res",[("post","/next/{id}:go",""),("get","/next/v{num}/x-{step}","")]))
msgs.append(("Node",[("sub","Sub",""),("nums","int64","repeated"),("tone","Color",""),("blob","bytes",""),("more","Node","repeated")]))
msgs.append(("DeepReq",[("name","string",""),("sub","Sub",""),("node","Node",""),("subs","Sub","repeated"),("blob","bytes",""),("blobs","bytes","repeated"),
 ("label","google.protobuf.StringValue",""),("count","google.protobuf.Int64Value",""),("at","google.protobuf.Timestamp","")]))
rpcs.append(("Deep","DeepReq","Res",[("get","/deep/{name}","")]))
msgs.append(("OptReq",[("s","string","optional"),("n","int32","optional"),("c","Color","optional"),("f","bool","optional"),("u","uint64","optional"),("d","double","optional"),("y","bytes","optional")]))
rpcs.append(("Opt","OptReq","Res",[("get","/opt/{s}/{n}/{c}",""),("put","/opt/{u}/{f}","")]))
msgs.append(("OddReq",[("a","int64","oneof:first"),("b","double","oneof:first"),("reset","string",""),("_lead","int32",""),("d","uint32","oneof:second"),("kind","Outer.Kind","oneof:second"),
 ("at","google.protobuf.Timestamp","oneof:second"),("g","float","oneof:second"),("string","Outer.Inner",""),("kinds","Outer.Kind","repeated"),("inners","Outer.Inner","repeated"),
 ("camelCase","string",""),("counts","map<string,int32>",""),("times_2","google.protobuf.Timestamp","repeated")]))
msgs.append(("Outer",[("inner","Outer.Inner","")]))
rpcs.append(("Odd","OddReq","Res",[("get","/odd/{reset}/{camelCase}",""),("post","/odd/{_lead}","*"),("put","/odd/{_lead}","kinds")]))
ENUMS.append(("Outer.Kind",[("A",0),("B",2)]))
msgs.append(("low_req",[("num","int32","")]))
rpcs.append(("get_low","low_req","Res",[("get","/low/{num}","")]))
msgs.append(("Res",[("text","string",""),("num","int64","")]))
msgs.append(("Outer.Inner",[("text","string",""),("num","int32","")]))
GT={pt:(gt,w) for n,pt,gt,w in KINDS}
GT["bytes"]=("[]byte","bytes")
GT["Outer.Kind"]=("Outer_Kind","varint")
def proto():
    o=['syntax = "proto3";','','package api;','','option go_package = "example.com/api;pb";','','import "google/api/annotations.proto";','import "google/protobuf/timestamp.proto";','import "google/protobuf/wrappers.proto";','']
    def enum(n,vs,ind): return [f"{ind}enum {n} {{"]+[f"{ind}  {v} = {i};" for v,i in vs]+[ind+"}",""]
    for n,vs in ENUMS:
        if "." not in n: o+=enum(n,vs,"")
    for m,fs in msgs:
        if "." in m: continue
        o.append(f"message {m} {{")
        for n,vs in ENUMS:
            if n.startswith(m+"."): o+=enum(n[len(m)+1:],vs,"  ")
        for n,ffs in msgs:
            if n.startswith(m+"."): o+=[f"  message {n[len(m)+1:]} {{"]+[f"    {t} {f} = {i+1};" for i,(f,t,l) in enumerate(ffs)]+["  }",""]
        cur=None
        for i,(f,t,l) in enumerate(fs):
            one=l.split(":")[1] if l.startswith("oneof") else None
            if one!=cur:
                if cur: o.append("  }")
                if one: o.append(f"  oneof {one} {{")
                cur=one
            ind="    " if cur else "  "
            o.append(f"{ind}{l+' ' if l in ('optional','repeated') else ''}{t} {f} = {i+1};")
        if cur: o.append("  }")
        o+=["}",""]
    o.append("service Api {")
    for n,rq,rs,bs in rpcs:
        if bs is None:
            o.append(f"  rpc {n}({rq}) returns ({rs});"); continue
        o.append(f"  rpc {n}({rq}) returns ({rs}) {{")
        o.append("    option (google.api.http) = {")
        for i,(v,p,b) in enumerate(bs):
            ind="      "
            if i:
                o.append("      additional_bindings {"); ind="        "
            if v.startswith("custom:"):
                o+= [f"{ind}custom {{",f'{ind}  kind: "{v[7:]}"',f'{ind}  path: "{p}"',f"{ind}}}"]
            else: o.append(f'{ind}{v}: "{p}"')
            if b: o.append(f'{ind}body: "{b}"')
            if i: o.append("      }")
        o+=["    };","  }"]
    o+=["}",""]
    return "\n".join(o)
def known():
    used={t.split(".")[0] for m,fs in gomsgs() for f,t,l in fs if "." in t and t not in GT}
    return ["import ("]+[f'\t{k} "google.golang.org/protobuf/types/known/{k}"' for k in sorted(used)]+[")"] if used else []
def gomsgs(): return [(camel(m),[(f,gname(t),l) for f,t,l in fs]) for m,fs in msgs]
def mapof(t): k,v=t[4:-1].split(","); return GT[k],GT[v]
def gotype(t,l):
    if t.startswith("map<"): (k,_),(v,_)=mapof(t); return f"map[{k}]{v}"
    if t in GT:
        g=GT[t][0]
        if l=="repeated": return "[]"+g
        if l=="optional": return "*"+g if g!="[]byte" else g
        return g
    return ("[]*" if l=="repeated" else "*")+t
def zero(t,l):
    if l=="repeated" or t not in GT: return "nil"
    g=GT[t][0]
    return {"[]byte":"nil","string":'""',"bool":"false","Color":"Color_RED","Outer_Kind":"Outer_A"}.get(g,"0")
def tag(i,f,t,l):
    if t.startswith("map<"): l="repeated"
    w=GT[t][1] if t in GT else "bytes"
    lab="rep" if l=="repeated" else "opt"
    if l=="repeated" and w!="bytes": lab+=",packed"
    s=f"{w},{i},{lab},name={f}"
    if lcamel(f)!=f: s+=f",json={lcamel(f)}"
    s+=",proto3"
    if t in [n for n,_ in ENUMS]: s+=",enum=api."+GT[t][0]
    if l=="optional" or l.startswith("oneof"): s+=",oneof"
    return s
def go():
    msgs=gomsgs()
    o=["// Code generated by protoc-gen-go. DO NOT EDIT.","","package pb","",*known(),"",""]
    for n,vs in ENUMS:
        g=GT[n][0]; pre=n.rsplit(".",1)[0].replace(".","_") if "." in n else g
        o+=[f"type {g} int32","","const ("]+[f"\t{pre}_{v} {g} = {i}" for v,i in vs]+[")","",f"// Enum value maps for {g}.","var (",f"\t{g}_name = map[int32]string{{"]+[f'\t\t{i}: "{v}",' for v,i in vs]
        o+=["\t}",f"\t{g}_value = map[string]int32{{"]+[f'\t\t"{v}": {i},' for v,i in vs]+["\t}",")","",f"func (x {g}) Enum() *{g} {{",f"\tp := new({g})","\t*p = x","\treturn p","}",""]
    x=["// Code written by tools/mkpb.py: what message reflection does in real code.","","package pb","",'import "strconv"',"",'import "github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/proto"',"",
       ""]
    for n,vs in ENUMS:
        g=GT[n][0]; pre=n.rsplit(".",1)[0].replace(".","_") if "." in n else g
        x+=[f"func (x {g}) String() string {{","\tswitch x {"]
        for v,_ in vs: x+=[f"\tcase {pre}_{v}:",f'\t\treturn "{v}"']
        x+=["\t}","\treturn proto.EnumNumber(int32(x))","}",""]
    imp=set()
    for m,fs in msgs:
        o.append(f"type {m} struct {{")
        seen=set()
        for i,(f,t,l) in enumerate(fs):
            if l.startswith("oneof"):
                one=l.split(":")[1]
                if one not in seen:
                    seen.add(one)
                    o.append("\t// Types that are assignable to "+camel(one)+":")
                    for ff,tt,ll in fs:
                        if ll==l: o.append(f"\t//\t*{m}_{fname(ff)}")
                    o.append(f'\t{camel(one)} is{m}_{camel(one)} `protobuf_oneof:"{one}"`')
                continue
            kv=""
            if t.startswith("map<"):
                (_,kw),(_,vw)=mapof(t); kv=f' protobuf_key:"{kw},1,opt,name=key,proto3" protobuf_val:"{vw},2,opt,name=value,proto3"'
            o.append(f'\t{fname(f)} {gotype(t,l)} `protobuf:"{tag(i+1,f,t,l)}" json:"{f},omitempty"{kv}`')
        o+=["}",""]
        o+=[f"func (x *{m}) Reset() {{",f"\t*x = {m}{{}}","}","",f"func (*{m}) ProtoMessage() {{}}",""]
        for one in seen:
            o+=[f"func (m *{m}) Get{camel(one)}() is{m}_{camel(one)} {{","\tif m != nil {",f"\t\treturn m.{camel(one)}","\t}","\treturn nil","}",""]
        for f,t,l in fs:
            c=fname(f)
            if l.startswith("oneof"):
                one=camel(l.split(":")[1])
                o+=[f"func (x *{m}) Get{c}() {gotype(t,'')} {{",f"\tif x, ok := x.Get{one}().(*{m}_{c}); ok {{",f"\t\treturn x.{c}","\t}",f"\treturn {zero(t,'')}","}",""]
            elif l=="optional":
                o+=[f"func (x *{m}) Get{c}() {gotype(t,'')} {{",f"\tif x != nil && x.{c} != nil {{",f"\t\treturn {'' if t=='bytes' else '*'}x.{c}","\t}",f"\treturn {zero(t,'')}","}",""]
            else:
                o+=[f"func (x *{m}) Get{c}() {gotype(t,l)} {{","\tif x != nil {",f"\t\treturn x.{c}","\t}",f"\treturn {zero(t,l)}","}",""]
        for one in seen:
            o+=[f"type is{m}_{camel(one)} interface {{",f"\tis{m}_{camel(one)}()","}",""]
            for i,(f,t,l) in enumerate(fs):
                if l=="oneof:"+one:
                    o+=[f"type {m}_{fname(f)} struct {{",f'\t{fname(f)} {gotype(t,"")} `protobuf:"{tag(i+1,f,t,l)}"`',"}",""]
            for f,t,l in fs:
                if l=="oneof:"+one: o+=[f"func (*{m}_{fname(f)}) is{m}_{camel(one)}() {{}}",""]
        # extras
        x+=[f"func (x *{m}) String() string {{ return \"{m}\" }}","",f"func (x *{m}) VerifNew() proto.Message {{ return new({m}) }}","",f"// VerifMerge copies what protojson would carry over.",f"func (x *{m}) VerifMerge(from proto.Message) bool {{",f"\ty, ok := from.(*{m})","\tif !ok {","\t\treturn false","\t}"]
        seen2=set()
        for f,t,l in fs:
            c=fname(f)
            if l.startswith("oneof"):
                one=l.split(":")[1]
                if one in seen2: continue
                seen2.add(one)
                x.append(f"\tswitch v := y.{camel(one)}.(type) {{")
                for ff,tt,ll in fs:
                    if ll==l: x+=[f"\tcase *{m}_{fname(ff)}:",f"\t\tx.{camel(one)} = &{m}_{fname(ff)}{{v.{fname(ff)}}}"]
                x.append("\t}")
            elif l=="optional":
                x+=[f"\tif y.{c} != nil {{",f"\t\tv := {'' if t=='bytes' else '*'}y.{c}",f"\t\tx.{c} = {'' if t=='bytes' else '&'}v","\t}"]
            elif t.startswith("map<"): x+=[f"\tfor k, v := range y.{c} {{",f"\t\tif x.{c} == nil {{",f"\t\t\tx.{c} = {gotype(t,l)}{{}}","\t\t}",f"\t\tx.{c}[k] = v","\t}"]
            elif l=="repeated" and t not in GT:
                imp|={t.split(".")[0]} if "." in t else set()
                x+=[f"\tfor _, e := range y.{c} {{",f"\t\tn := &{t}{{}}","\t\tn.VerifMerge(e)",f"\t\tx.{c} = append(x.{c}, n)","\t}"]
            elif l=="repeated": x.append(f"\tx.{c} = append(x.{c}, y.{c}...)")
            elif t not in GT:
                imp|={t.split(".")[0]} if "." in t else set()
                x+=[f"\tif y.{c} != nil {{",f"\t\tx.{c} = &{t}{{}}",f"\t\tx.{c}.VerifMerge(y.{c})","\t}"]
            else: x.append(f"\tx.{c} = y.{c}")
        x+=["\treturn true","}",""]
        x+=["// VerifSet sets a field from its JSON value; known is false if there is no such field.",f"func (x *{m}) VerifSet(name string, kind byte, text string) (known, ok bool) {{","\tswitch name {"]
        for f,t,l in fs:
            names=[f'"{f}"']
            if lcamel(f)!=f: names.append(f'"{lcamel(f)}"')
            x.append(f"\tcase {', '.join(names)}:")
            g=GT.get(t,("",""))[0]
            if l or g not in ("string","int32","int64","uint32","uint64","bool"): x.append("\t\treturn true, false"); continue
            c=fname(f)
            if g=="string": x+=["\t\tif kind == 's' {",f"\t\t\tx.{c} = text","\t\t}","\t\treturn true, kind == 's'"]
            elif g=="bool": x+=["\t\tif kind == 'b' {",f"\t\t\tx.{c} = text == \"true\"","\t\t}","\t\treturn true, kind == 'b'"]
            else:
                fn="ParseInt" if g[0]=="i" else "ParseUint"
                x+=[f"\t\tn, err := strconv.{fn}(text, 10, {g[-2:]})","\t\tif err == nil {",f"\t\t\tx.{c} = {g}(n)","\t\t}","\t\treturn true, err == nil && (kind == 'n' || kind == 's')"]
        x+=["\t}","\treturn false, true","}",""]
    ext="github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/types/known/"
    i=x.index('import "strconv"')
    x[i+1:i+1]=[f'import "{ext}{k}"' for k in sorted(imp)]
    return "\n".join(o),"\n".join(x)
def grpc():
    rpcs=[(camel(n),camel(rq),camel(rs),bs) for n,rq,rs,bs in globals()["rpcs"]]
    o=["// Code generated by protoc-gen-go-grpc. DO NOT EDIT.","","package pb","","import (",'\t"context"','\t"errors"']+(["",'\t"google.golang.org/grpc"'] if REGISTER else [])+[")",""]
    o+=["// ApiServer is the server API for Api service.","// All implementations must embed UnimplementedApiServer","// for forward compatibility","type ApiServer interface {"]
    for n,rq,rs,bs in rpcs: o.append(f"\t{n}(context.Context, *{rq}) (*{rs}, error)")
    o+=["\tmustEmbedUnimplementedApiServer()","}","","// UnimplementedApiServer must be embedded to have forward compatible implementations.","type UnimplementedApiServer struct {","}",""]
    for n,rq,rs,bs in rpcs:
        o+=[f"func (UnimplementedApiServer) {n}(context.Context, *{rq}) (*{rs}, error) {{",f'\treturn nil, errors.New("method {n} not implemented")',"}",""]
    o+=["func (UnimplementedApiServer) mustEmbedUnimplementedApiServer() {}",""]
    if REGISTER:
        o+=["// RegisterApiServer registers the implementation.","func RegisterApiServer(s grpc.ServiceRegistrar, srv ApiServer) {","\ts.RegisterService(&Api_ServiceDesc, srv)","}","",
            "// Api_ServiceDesc is the grpc.ServiceDesc for Api service.","var Api_ServiceDesc = grpc.ServiceDesc{",'\tServiceName: "api.Api",',"\tHandlerType: (*ApiServer)(nil),",'\tMetadata: "api.proto",',"}",""]
    return "\n".join(o)
def write():
    os.makedirs(D,exist_ok=True)
    g,x=go()
    open(D+"api.proto","w").write(proto())
    open(D+"api.pb.go","w").write(g)
    open(D+"api_grpc.pb.go","w").write(grpc())
    open(D+"zz_reflect.go","w").write(x)
    os.system(f". /opt/vp/env.sh; gofmt -w {D}*.go")
REGISTER=False
write()
D='/verif/harness/srv/pb/'
ENUMS=ENUMS[:1]
REGISTER=True
msgs=[("PingReq",[("name","string",""),("num","int32","")]),("Res",[("text","string",""),("num","int64","")])]
rpcs=[("Ping","PingReq","Res",[("get","/ping/{name}","")]),("PongAll","PingReq","Res",[("post","/pong","*")]),("Hush","PingReq","Res",None)]
write()
D='/verif/harness/cli/pb/'
msgs=[("PingReq",[("name","string",""),("num","int32","")]),("note_req",[("text","string","")]),("Res",[("text","string",""),("num","int64","")]),("Note",[("text","string","")])]
rpcs=[("Ping","PingReq","Res",[("get","/ping","")]),("add_note","note_req","Note",[("post","/notes","*"),("put","/notes/{text}","")]),("Hush","PingReq","Res",None),("Stop","note_req","Res",[("custom:PURGE","/stop",""),])]
write()
