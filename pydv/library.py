"""Library objects as python code with contracts of their own: what verified code is given in their place."""


class TextFile:
    """An open text file: its lines, and how many have been read. No line is empty (each but the last ends in a line feed)."""

    def readline(self):
        if self.pos < len(self.lines):
            line = self.lines[self.pos]
            self.pos += 1
            return line
        return ""

    def read(self):
        return self.text

    def close(self):
        pass


class OutFile:
    """A file written from scratch: where it is, and what was written, piece by piece."""

    def write(self, text):
        self.written.append(text)

    def close(self):
        pass
