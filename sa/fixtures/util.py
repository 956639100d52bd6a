def B(name, *edits, **k):
    return dict(name=name, expect='bad', edits=list(edits), **k)


def G(name, *edits, **k):
    return dict(name=name, expect='ok', edits=list(edits), **k)
