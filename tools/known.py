import subprocess
props={'when its offset has seconds':'E06','however they are written':'K01',"over websockets which can't":'W01','for those who accept the encoding':'H01','an informational status':'H01','maximum length of the body':'H01','operation without a url':'H02','must wait for the requests in progress':'N01','Listen must not hang':'N01','requests must be counted once':'M01','requests answered implicitly':'M01','schema of a pointer':'O01','schema of ctx.Error':'O01','schema of enc.Digits':'O01','LRU.String':'C01','paths of unhandled':'E04','empty body':'T01','config fields of named':'F01','config maps whose':'F01','config.From(nil)':'F01','config tag on':'F01','config lists':'F01','storage filters':'K01','printing a counter':'M01','printing a histogram':'M01','label values and desc':'M01','sums must be printed':'M01','a type which has no schema':'O01','whose zero value is a negative':'O01','schemas must list exactly':'O01','schema of enc.Pairs':'O01','keys of component schemas':'O01','example which is not a finite':'O01','different types with the same name':'O01','websocket frames of':'W02','closing a channel':'W01','error of Init':'W01','registering a struct for':'W01','private fields':'W01','pointer or interface with omitempty':'E01','tags named like':'G01','malformed API request':'H02','body of error responses':'H02','unexported values must not panic at':'A01','LRU hit':'C01','RequestCache':'C03','sync.Map':'Y02','ReadAll':'R01','WaitGroup':'S01','sibling spans':'X03','ctx.JSON':'X01','attaching a logger':'G01','logging must':'G01','a number that':'E03','big unsigned':'E03','json:"-"':'E04','unmarshalling must report an error for targets':'E05','same names':'E01','enc.Pairs must':'E01','marshalling must report':'E05','concurrent unm':'E05',"nodes which can't":'E05','factory':'E05','decoding JSON must refuse':'E02'}
out=["# Genuine defects found in the repository. 'fixed:' lines are repaired in /repo",
"# and suppress nothing; 'finding:' lines are open and are reported as",
"# KNOWN-FINDING by the check of the property."]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p=[v for k,v in props.items() if k in s]
    assert p,s
    out.append(f'fixed: property={p[0]} {h} {s[5:]}')
out+=[l for l in open('/verif/known-findings.txt').read().splitlines() if l.startswith('finding:')]
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
