import json,sys
def w(id,**k):
    k={"id":id,**k}
    assert len(k["title"])<=80,(len(k["title"]))
    ok={'schedules','crash_points','inputs','programs','histories','configurations','fault_sequences'}
    assert set(k["quantifier"]["over"])<=ok
    json.dump(k,open(__import__("os").path.dirname(__import__("os").path.abspath(__file__))+"/props/%s.json"%id,"w"),indent=0)
def P(id,title,statement,over,text,why,files,mech,observe,technique,note):
    w(id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,
      anchors={"files":files,"mechanism":[{"name":n,"where":p} for n,p in mech],"observe_at":observe,"hook_needed":None},
      check={"technique":technique,"level_note":note})
