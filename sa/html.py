"""Where in an HTML page a template puts values: a small reading of markup with holes."""


class Reader:
    """feeds on pieces of markup and tells the place the next hole is in:
    text, tag, attr"name, attr'name, attr (unquoted), comment, script, script string, style"""

    def __init__(self):
        self.state = "text"
        self.tag = ""
        self.attr = ""
        self.buf = ""
        self.raw = None  # script or style
        self.js = None  # quote a script string is in
        self.jsc = None  # comment a script is in
        self.esc = False

    def place(self):
        if self.state == "raw":
            if self.raw == "script":
                return "script string" if self.js else "script comment" if self.jsc else "script"
            return self.raw
        if self.state in ("value\"", "value'"):
            return "attribute %s in %s" % (self.attr.lower(), self.state[-1])
        if self.state in ("value", "before value"):
            return "attribute %s unquoted" % self.attr.lower()
        return self.state

    def hole(self):
        """something is put here"""
        if self.state == "before value":
            self.state = "value"
        if self.state == "tag name":
            self.tag += "x"

    def feed(self, s):
        i = 0
        while i < len(s):
            c = s[i]
            st = self.state
            if st == "text":
                if s.startswith("<!--", i):
                    self.state = "comment"
                    i += 4
                    continue
                if c == "<" and i + 1 < len(s) and (s[i + 1].isalpha() or s[i + 1] in "/!"):
                    self.state, self.tag = "tag name", ""
            elif st == "comment":
                if s.startswith("-->", i):
                    self.state = "text"
                    i += 3
                    continue
            elif st == "tag name":
                if c == ">":
                    self.close()
                elif c.isspace():
                    self.state = "tag"
                else:
                    self.tag += c
            elif st == "tag":
                if c == ">":
                    self.close()
                elif not c.isspace() and c != "/":
                    self.state, self.attr = "attr name", c
            elif st == "attr name":
                if c == ">":
                    self.close()
                elif c == "=":
                    self.state = "before value"
                elif c.isspace():
                    self.state = "tag"
                else:
                    self.attr += c
            elif st == "before value":
                if c in "\"'":
                    self.state = "value" + c
                elif c == ">":
                    self.close()
                elif not c.isspace():
                    self.state = "value"
            elif st in ("value\"", "value'"):
                if c == st[-1]:
                    self.state = "tag"
            elif st == "value":
                if c == ">":
                    self.close()
                elif c.isspace():
                    self.state = "tag"
            elif st == "raw":
                end = "</" + self.raw
                if s[i:i + len(end)].lower() == end:
                    self.state, self.tag, self.raw, self.js, self.jsc = "tag name", "", None, None, None
                    i += 1
                    continue
                if self.raw == "script":
                    self.script(s, i, c)
            i += 1

    def script(self, s, i, c):
        if self.jsc:
            if self.jsc == "//" and c == "\n" or self.jsc == "/*" and s.startswith("*/", i):
                self.jsc = None
        elif self.js:
            if self.esc:
                self.esc = False
            elif c == "\\":
                self.esc = True
            elif c == self.js or c == "\n" and self.js != "`":
                self.js = None
        elif c in "\"'`":
            self.js = c
        elif s.startswith("//", i) and not (i and s[i - 1] == ":"):
            self.jsc = "//"
        elif s.startswith("/*", i):
            self.jsc = "/*"

    def close(self):
        name = self.tag.lower()
        if name in ("script", "style"):
            self.state, self.raw = "raw", name
            self.js = self.jsc = None
        else:
            self.state = "text"
