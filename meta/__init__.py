PROPS = []
NA = []
INPUTS = ['inputs']
def P(id, title, statement, over, qtext, why, files, mech, technique, note, design, level='exploration', thorough=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, design=design, level=level, thorough=thorough))
def N(id, title, statement, over, qtext, why, files, mech, reason):
    """property stated, not claimed"""
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))
