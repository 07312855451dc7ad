from spec import S
PROPS = {}
for s in S:
    PROPS[s["id"]] = dict(harness=s["harness"], bounds={"quick": s["quick"], "thorough": s["thorough"]},
                          assumptions=s["assumptions"], **s["cfg"])
