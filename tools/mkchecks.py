import json,sys
sys.path.insert(0,'/verif/tools')
from bounds import B
class D(dict):
    def __missing__(self,k): return '{'+k+'}'
base=["Symbolic execution is over the go/ssa form of the current tree's functions (and of the Go standard library code they call), with goroutines handing over only where they block, start or end (at most 2 departures from first come, first served unless stated) and the built-in string search kernels modelled; sampled paths are replayed against the natively compiled code.",]
GEN=["The code under test is what the generator of the current tree writes for one definition with methods for every field kind (harness/genapi/pb/api.proto); its imports of go-kit, gorilla/mux, nats and google.golang.org/{grpc,protobuf}, none of which is in the module cache, are replaced by stand-ins in harness/ext that follow the documented behaviour of the originals; floats are concrete."]
def w(id,units,extra=()):
    for u in units:
        t=B.get(u["entry"]+id) or B[u["entry"]]
        ps=u.get("params",{})
        q=t.format_map(D(ps.get("quick",{})))
        th=ps.get("thorough")
        x=t.format_map(D(th)) if th else q
        if u["bounds"]=="": u["bounds"]=q if x==q else q+" (thorough: "+", ".join(f"{k}={v}" for k,v in th.items())+")"
    json.dump({"property":id,"level":"model_checking","assumptions":base+list(extra),"units":units},open(f'/verif/checks/{id}.json','w'),indent=1)
S="svcparse"
w("C02",[
 dict(harness=S,entry="ParseNames",params={"quick":{"len":4},"thorough":{"len":6}},reach=["compared"],bounds=""),
 dict(harness=S,entry="ParseShape",params={"quick":{"additional":1},"thorough":{"additional":2}},reach=["compared"],bounds=""),
 dict(harness=S,entry="ParseValue",params={"quick":{"len":4},"thorough":{"len":4}},reach=["compared"],bounds=""),
 dict(harness=S,entry="ParseLayout",params={"quick":{"ws":2,"len":1},"thorough":{"ws":3,"len":2}},reach=["compared"],bounds=""),
 dict(harness=S,entry="ParseOptions",reach=["compared","none"],bounds=""),
 dict(harness=S,entry="ParseOrder",reach=["compared"],bounds=""),
 dict(harness=S,entry="ParseOutside",params={"quick":{"name":7,"len":2},"thorough":{"name":7,"len":4}},reach=["compared"],bounds=""),
 dict(harness=S,entry="ParseLong",reach=["compared"],bounds=""),
])
w("C03",[
 dict(harness=S,entry="LexFaithful",params={"quick":{"len":3},"thorough":{"len":4}},reach=["lexed"],bounds=""),
 dict(harness=S,entry="LexUnicode",params={"quick":{"len":2},"thorough":{"len":3}},reach=["lexed"],bounds=""),
 dict(harness=S,entry="LexLong",reach=["lexed"],bounds=""),
 dict(harness=S,entry="LexPieces",params={"quick":{"n":3},"thorough":{"n":4}},reach=["lexed"],bounds=""),
 dict(harness=S,entry="LexUnget",params={"quick":{"len":1,"pieces":1},"thorough":{"len":2,"pieces":2}},reach=["replayed"],bounds=""),
])
w("C04",[
 dict(harness=S,entry="RobustRaw",params={"quick":{"len":3},"thorough":{"len":4}},reach=["parsed"],bounds=""),
 dict(harness=S,entry="RobustTruncate",params={"quick":{"len":1},"thorough":{"len":2}},reach=["parsed"],bounds=""),
 dict(harness=S,entry="RobustMutate",reach=["parsed"],bounds=""),
 dict(harness=S,entry="RobustLong",reach=["parsed"],bounds=""),
])
w("C05",[
 dict(harness=S,entry="Isolation",params={"quick":{"len":2},"thorough":{"len":3}},reach=["compared"],bounds=""),
 dict(harness=S,entry="IsolationMany",reach=["compared"],bounds=""),
 dict(harness=S,entry="IsolationLex",params={"quick":{"n":1},"thorough":{"n":2}},reach=["lexed"],bounds=""),
])
N="naming"
w("C01",[
 dict(harness=N,entry="CamelCase",params={"quick":{"len":6},"thorough":{"len":8}},reach=["named"],bounds=""),
 dict(harness=N,entry="JSONNames",params={"quick":{"len":6},"thorough":{"len":8}},reach=["named"],bounds=""),
 dict(harness=N,entry="EnumNames",params={"quick":{"len":5,"prefix":3},"thorough":{"len":6,"prefix":4}},reach=["named"],bounds=""),
 dict(harness=N,entry="Sanitized",params={"quick":{"len":3},"thorough":{"len":4}},reach=["named"],bounds=""),
 dict(harness=N,entry="Keywords",params={"quick":{"len":11}},reach=["named"],bounds=""),
 dict(harness=N,entry="LowCamel",params={"quick":{"len":4},"thorough":{"len":6}},reach=["named"],bounds=""),
 dict(harness=N,entry="Long",reach=["named"],bounds=""),
 dict(harness=N,entry="BaseTypes",reach=["named"],bounds=""),
])
w("C16",[
 dict(harness="start",entry="Create",params={"quick":{"len":2},"thorough":{"len":3}},reach=["created"],bounds=""),
 dict(harness="start",entry="Existing",params={"quick":{"len":1},"thorough":{"len":2}},reach=["refused"],bounds=""),
 dict(harness="start",entry="Failing",params={"quick":{"len":1},"thorough":{"len":2}},reach=["reported"],bounds=""),
 dict(harness="start",entry="Long",reach=["created"],bounds=""),
])

H="httpbind"
w("C07",[
 dict(harness=H,entry="Locations",params={"quick":{"len":1,"segs":1,"verbs":1},"thorough":{"len":2,"segs":1,"verbs":1}},reach=["located"],bounds=""),
 dict(harness=H,entry="Additional",reach=["located"],bounds=""),
 dict(harness=H,entry="Locations",params={"quick":{"len":1,"segs":2,"verbs":0},"thorough":{"len":2,"segs":2,"verbs":0}},reach=["located"],bounds=""),
 dict(harness=H,entry="Attachment",reach=["attached"],bounds=""),
 dict(harness=H,entry="Many",reach=["located"],bounds=""),
 dict(harness=H,entry="Spelled",params={"quick":{"len":3},"thorough":{"len":4}},reach=["located"],bounds=""),
 dict(harness=H,entry="Imported",reach=["imported"],bounds=""),
])
w("C09",[
 dict(harness=H,entry="Sections",params={"quick":{"len":2,"segs":2,"lit":2},"thorough":{"len":2,"segs":3,"lit":2}},reach=["sections"],bounds=""),
 dict(harness=H,entry="Sections",params={"quick":{"len":2,"segs":1,"lit":2,"pre":2,"post":2,"beside":1},"thorough":{"len":2,"segs":2,"lit":1,"pre":1,"post":1,"beside":1}},reach=["sections"],bounds=""),
 dict(harness=H,entry="Params",params={"quick":{"len":2,"segs":3},"thorough":{"len":3,"segs":3}},reach=["matched"],bounds=""),
 dict(harness=H,entry="SectionsLong",reach=["sections"],bounds=""),
 dict(harness=H,entry="ParamsLong",reach=["matched"],bounds=""),
 dict(harness=H,entry="ParamsShape",params={"quick":{"url":4,"tmpl":5},"thorough":{"url":5,"tmpl":7}},reach=["matched"],bounds=""),
])
w("C18",[
 dict(harness=H,entry="Labels",params={"quick":{"digits":4},"thorough":{"digits":5}},reach=["labelled"],bounds=""),
 dict(harness=H,entry="NewLabels",params={"quick":{"len":2,"bindings":12},"thorough":{"len":2,"bindings":25}},reach=["labelled"],bounds=""),
])
M="svcdefm"
w("C06",[
 dict(harness=M,entry="FieldKinds",params={"quick":{"len":2,"second":1},"thorough":{"len":3,"second":2}},reach=["checked"],bounds=""),
 dict(harness=M,entry="Oneofs",reach=["checked"],bounds=""),
 dict(harness=M,entry="Methods",params={"quick":{"len":1},"thorough":{"len":2}},reach=["checked"],bounds=""),
 dict(harness=M,entry="Many",reach=["checked"],bounds=""),
])
w("C08",[
 dict(harness=M,entry="Splits",reach=["checked"],bounds="",repeat=20),
 dict(harness=M,entry="History",reach=["checked"],bounds=""),
 dict(harness=M,entry="ProtoOrder",reach=["checked"],bounds="",repeat=20),
 dict(harness=M,entry="ManyFiles",params={"quick":{"files":4},"thorough":{"files":5}},reach=["checked"],bounds="",repeat=20),
])
G="gen"
w("C12",[
 dict(harness=G,entry="Handlers",reach=["regenerated"],bounds=""),
 dict(harness=G,entry="HandlerText",params={"quick":{"len":1,"note":1},"thorough":{"len":2,"note":2}},reach=["regenerated"],bounds=""),
 dict(harness=G,entry="Decoys",params={"quick":{"len":1},"thorough":{"len":2}},reach=["regenerated"],bounds=""),
 dict(harness=G,entry="HandlersMany",params={"quick":{"count":8},"thorough":{"count":16}},reach=["regenerated"],bounds=""),
 dict(harness=G,entry="HandlerFresh",params={"quick":{"len":1},"thorough":{"len":2}},reach=["created"],bounds=""),
])
w("C13",[
 dict(harness=G,entry="UserFiles",params={"quick":{"len":2},"thorough":{"len":3}},reach=["kept"],bounds=""),
 dict(harness=G,entry="UserGoFiles",params={"quick":{"len":1},"thorough":{"len":2}},reach=["kept"],bounds=""),
 dict(harness=G,entry="AlwaysFresh",params={"quick":{"len":2},"thorough":{"len":3}},reach=["fresh"],bounds=""),
 dict(harness=G,entry="UserFilesLong",reach=["kept"],bounds=""),
])
w("C14",[
 dict(harness=G,entry="OrderHandlers",reach=["ordered"],bounds="",repeat=20),
 dict(harness=G,entry="OrderMany",reach=["ordered"],bounds="",repeat=20),
 dict(harness=G,entry="OrderAll",reach=["ordered"],bounds="",repeat=20),
 dict(harness=G,entry="BaronFile",reach=["written"],bounds="",repeat=20),
])
w("C15",[
 dict(harness=G,entry="FileSet",params={"quick":{"len":2},"thorough":{"len":3}},reach=["listed"],bounds=""),
 dict(harness=G,entry="FileSetWords",reach=["listed"],bounds=""),
 dict(harness=G,entry="FileSetLong",reach=["listed"],bounds=""),
 dict(harness=G,entry="Written",reach=["written"],bounds=""),
])

G=dict(harness="genapi",prepare="api",bounds="")
w("C10",[
 dict(G,entry="IntValues",reach=["value"]),
 dict(G,entry="IntRange",params={"quick":{"rest":2},"thorough":{"rest":8}},reach=["range"]),
 dict(G,entry="IntSyntax",params={"quick":{"len":3},"thorough":{"len":4}},reach=["accepted","rejected"]),
 dict(G,entry="IntList",params={"quick":{"len":4},"thorough":{"len":5}},reach=["accepted","rejected"]),
 dict(G,entry="Lists",params={"quick":{"more":2},"thorough":{"more":5}},reach=["list"]),
 dict(G,entry="Absent",reach=["absent"]),
 dict(G,entry="Bools",params={"quick":{"len":5},"thorough":{"len":6}},reach=["accepted","rejected"]),
 dict(G,entry="Strings",params={"quick":{"len":3},"thorough":{"len":4}},reach=["string"]),
 dict(G,entry="Floats",reach=["accepted","rejected"]),
 dict(G,entry="Oneof",reach=["accepted","rejected"]),
 dict(G,entry="AltJSON",params={"quick":{"len":4}},reach=["accepted","rejected"]),
 dict(G,entry="DeepJSON",params={"quick":{"digits":3,"len":2},"thorough":{"digits":0,"len":3}},reach=["rejected","sub","node","subs","blob","blobs","label","count","at"]),
 dict(G,entry="OptValues",reach=["accepted","rejected"]),
 dict(G,entry="OddValues",reach=["accepted","rejected"]),
 dict(G,entry="Routes",reach=["routed","refused"]),
 dict(G,entry="Beside",params={"quick":{"len":3},"thorough":{"len":4}},reach=["first","second","refused"]),
],GEN)
w("C11",[
 dict(G,entry="ClientInts",reach=["arrived"]),
 dict(G,entry="ClientFlags",reach=["arrived"]),
 dict(G,entry="ClientFloats",reach=["arrived"]),
 dict(G,entry="ClientStrings",params={"quick":{"len":2},"thorough":{"len":3}},reach=["arrived"]),
 dict(G,entry="ClientAlt",params={"quick":{"blob":2,"text":2},"thorough":{"blob":4,"text":3}},reach=["arrived"]),
 dict(G,entry="ClientDeep",params={"quick":{"digits":2,"len":2},"thorough":{"digits":0,"len":3}},reach=["arrived","unset"]),
 dict(G,entry="ClientOpt",reach=["arrived"]),
 dict(G,entry="ClientOdd",reach=["arrived"]),
 dict(G,entry="ClientBody",reach=["arrived"]),
 dict(G,entry="ClientBindings",reach=["arrived","refused","binding0","binding1","binding2","binding3","binding4"]),
 dict(G,entry="ClientNext",params={"quick":{"len":2},"thorough":{"len":3}},reach=["POST","GET","refused"]),
 dict(G,entry="ClientHost",params={"quick":{"len":2},"thorough":{"len":3}},reach=["arrived"]),
],GEN)

w("C20",[
 dict(G,entry="PassThrough",reach=["response","error"]),
 dict(G,entry="WrapSubsets",params={"quick":{"window":7},"thorough":{"window":14}},reach=["wrapped"],repeat=20),
 dict(G,entry="WrapNames",params={"quick":{"len":4},"thorough":{"len":5}},reach=["wrapped","refused"],repeat=20),
 dict(G,entry="WrapTwice",reach=["wrapped"],repeat=20),
],GEN)
w("C21",[
 dict(G,entry="Errors",params={"quick":{"len":2},"thorough":{"len":3}},reach=["reported"]),
 dict(G,entry="Statuses",reach=["error","garbage","empty","text"]),
 dict(G,entry="Successes",reach=["response"]),
 dict(G,entry="Headers",params={"quick":{"more":2,"len":2},"thorough":{"more":3,"len":3}},reach=["seen"],repeat=20),
 dict(G,entry="Sent",params={"quick":{"keys":2,"len":2},"thorough":{"keys":3,"len":2}},reach=["sent"],repeat=20),
],GEN)
w("C22",[
 dict(G,entry="GRPC",reach=["response","error"]),
 dict(G,entry="GRPCMetadata",params={"quick":{"len":2},"thorough":{"len":3}},reach=["seen"],repeat=20),
 dict(G,entry="NATS",reach=["response"]),
 dict(G,entry="NATSServe",reach=["served","refused"]),
],GEN)

CM="cmdl"
w("C19",[
 dict(harness=CM,prepare="cmd",entry="Protoc",params={"quick":{"len":3},"thorough":{"len":4}},reach=["run","missing"],bounds=""),
 dict(harness=CM,prepare="cmd",entry="Protoc",params={"quick":{"len":1,"all":1},"thorough":{"len":2,"all":1}},reach=["run","missing"],bounds=""),
 dict(harness=CM,prepare="cmd",entry="ProtocMany",reach=["run"],bounds=""),
])
w("C17",[
 dict(harness=CM,prepare="cmd",entry="Locations",params={"quick":{"len":1},"thorough":{"len":2}},reach=["generated"],bounds=""),
 dict(harness=CM,prepare="cmd",entry="Regenerate",params={"quick":{"len":1,"services":2},"thorough":{"len":2,"services":4}},reach=["regenerated"],bounds=""),
 dict(harness=CM,prepare="cmd",entry="Several",params={"quick":{"len":2},"thorough":{"len":3}},reach=["several","no service"],bounds=""),
 dict(harness=CM,prepare="cmd",entry="ManyFiles",reach=["several","refused"],bounds=""),
 dict(harness=CM,prepare="cmd",entry="Refused",reach=["refused"],bounds=""),
 dict(harness=CM,prepare="cmd",entry="Information",reach=["informed"],bounds=""),
 dict(harness=CM,prepare="cmd",entry="Transports",params={"quick":{"len":1},"thorough":{"len":2}},reach=["served","refused"],bounds=""),
])

K="complete"
w("C23",[
 dict(harness=K,entry="Options",reach=["checked"],bounds=""),
 dict(harness=K,entry="Fields",params={"quick":{"free":0},"thorough":{"free":1}},reach=["checked"],bounds=""),
 dict(harness=K,entry="MethodNames",params={"quick":{"len":2},"thorough":{"len":3}},reach=["checked"],bounds=""),
 dict(harness=K,entry="FieldNames",params={"quick":{"len":2},"thorough":{"len":3}},reach=["checked"],bounds=""),
 dict(harness=K,entry="Bindings",reach=["checked"],bounds=""),
 dict(harness=K,prepare="words",entry="UsedWords",reach=["checked"],bounds=""),
],["The definition and the Go code protoc gives for it are written by the harness; what the type checker (go/types, executed symbolically with the generator) sees of other packages are declarations in harness/complete/stubs.go, and packages that are not there are accepted unseen."])

R="srv"
units=[]
for t,prep in enumerate(("srv","srv-grpc","srv-nats","srv-http")):
    units+=[
     dict(harness=R,prepare=prep,entry="Run",params={"quick":{"transport":t,"delays":2},"thorough":{"transport":t,"delays":3}},reach=["failed","ended"],bounds=""),
     dict(harness=R,prepare=prep,entry="Served",params={"quick":{"transport":t},"thorough":{"transport":t}},reach=["served","debug"],bounds=""),
     dict(harness=R,prepare=prep,entry="Defaults",params={"quick":{"transport":t},"thorough":{"transport":t}},reach=["answered"],bounds=""),
    ]
    for v in range(4):
        units.append(dict(harness=R,prepare=prep,entry="Config",params={"quick":{"transport":t,"delays":0,"len":1,"vary":v},"thorough":{"transport":t,"delays":0,"len":2,"vary":v}},reach=["configured"],bounds=""))
w("C24",units,[GEN[0].replace("methods for every field kind (harness/genapi/pb/api.proto)","three methods (harness/srv/pb/api.proto), once for each transport"),
 "net/http servers, net.Listen, nats.Connect, os/signal, the profiling pages and log are stand-ins (harness/ext/std) that record what is started, fail when told to and otherwise serve for ever. Goroutines hand over only where they block, start or end; shared memory without synchronisation is not looked at."])

R="cli"
w("C25",[dict(harness=R,prepare=prep,entry="Calls",params={"quick":{"transport":t,"len":1},"thorough":{"transport":t,"len":2}},reach=["called","failed"]+(["refused"] if t<3 else []),bounds="")
 for t,prep in enumerate(("cli","cli-grpc","cli-nats","cli-http"))],
 [GEN[0].replace("methods for every field kind (harness/genapi/pb/api.proto)","four methods (harness/cli/pb/api.proto), once for each transport"),
 "The network, go-kit, grpc and NATS are stand-ins (harness/ext) that record each call and answer it, or fail when told to."])
