"""A write-only buffer that keeps symbolic pieces apart."""


class Sink:
    def __init__(self):
        self.parts = []

    def write(self, data):
        self.parts.append(data)

    def data(self):
        return b''.join(self.parts)


def written(pdf):
    """the bytes a document writes"""
    s = Sink()
    pdf.output(s)
    return s.data()
