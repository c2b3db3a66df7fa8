class Proxy:
    def __init__(self, data):
        self.data = data

    def to_py(self):
        return self.data


class File:
    def __init__(self, content):
        self.content = content

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def read(self):
        return self.content
