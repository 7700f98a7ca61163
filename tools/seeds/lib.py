BUGS=[]
def bug(id, prop, edits, needs, breaks, main, font=False, extra='', head=''):
    assert id not in [b['id'] for b in BUGS], id
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,main=main,font=font,extra=extra,head=head))
