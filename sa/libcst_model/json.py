def dumps(data):
    return _native_dumps(data)


def loads(text):
    return _native_loads(text)


def _native_dumps(data):
    pass


def _native_loads(text):
    pass
