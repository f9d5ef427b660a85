"""Reads a generated documentation page the way a browser does: a tree of
elements with unescaped text, the boxes of the page by their id, the links
between them, and for every box its labelled parts."""
import html.parser
import re

VOID = {"meta", "link", "br", "img", "input", "hr"}


class Node:
    def __init__(self, tag, attrs, up):
        self.tag, self.attrs, self.up, self.items = tag, dict(attrs), up, []

    def text(self):
        return "".join(i if isinstance(i, str) else i.text() for i in self.items)

    def walk(self):
        yield self
        for i in self.items:
            if isinstance(i, Node):
                yield from i.walk()

    def cls(self):
        return (self.attrs.get("class") or "").split()


class Page(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = self.at = Node("", [], None)
        self.faults = []
        self.feed(text)
        self.close()
        if self.at is not self.root:
            self.faults.append("element %s is not closed" % self.at.tag)

    def handle_starttag(self, tag, attrs):
        n = Node(tag, attrs, self.at)
        self.at.items.append(n)
        if tag not in VOID:
            self.at = n

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if self.at.tag != tag:
            self.faults.append("%s closed while %s (%s) is open" % (tag, self.at.tag, self.at.attrs.get("id", "")))
            return
        self.at = self.at.up

    def handle_data(self, data):
        self.at.items.append(data)


LINK = re.compile(r"docjs\.navigate\('(.*)'\)")


def target(node):
    m = LINK.search(node.attrs.get("onclick") or "")
    return m.group(1) if m else None


def parts(box):
    """[(label, content)] of a box: rows of cells for a table, texts of the entries otherwise"""
    out = []

    def content(node):
        rows = [[c.text().strip() for c in r.items if isinstance(c, Node)] for r in node.walk() if "tr" in r.cls()]
        if rows or any("table" in n.cls() for n in node.walk()):
            return rows
        return [l.text().strip("\n ") for l in node.walk() if l.tag == "li"]

    def visit(node):
        for i in node.items:
            if not isinstance(i, Node):
                continue
            if "lbl" in i.cls():
                out.append([i.text().strip().rstrip(":"), []])
            elif i.tag == "ul":
                if out:
                    out[-1][1] += content(i)
            else:
                visit(i)
    visit(box)
    return {k: v for k, v in out}
