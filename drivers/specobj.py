"""Targets of object specifications used by d_store."""


class Thing:
    def __init__(self, a=0, b=0, c=0):
        self.a, self.b, self.c = a, b, c

    def args(self):
        return [["a", self.a], ["b", self.b], ["c", self.c]]


def func(a=0, b=0, c=0):
    return [["a", a], ["b", b], ["c", c]]


def noise(data):
    return {"built": data}
