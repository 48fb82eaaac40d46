def loads(S):
    for m in S.params['mods']:
        S.load(m)
