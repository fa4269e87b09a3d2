"""Reference model of link numbering: the standard tokenizer plus a stack."""
import re

import core
import docs


class Ref(object):
    __slots__ = ("n", "tag", "href", "title", "pos", "node")


def model(events, lp, ip):
    """Links in document order, their numbers, the number of text characters
    (docs.kept) in front of their marker, and the order in which markers and
    after-block entries appear."""
    root, order, depth = docs.build_tree(events)
    refs = []
    markers = []
    by_node = {}
    pending = {}
    text = ""
    n = 0
    blocks = []
    for ev in order:
        if ev[0] == "open":
            node = ev[1]
            if node.tag in ("a", "img"):
                placement = ip if node.tag == "img" else lp
                if placement != "inline":
                    n += 1
                    r = Ref()
                    r.n, r.tag, r.node = n, node.tag, node
                    r.href = node.attrs.get("src" if node.tag == "img" else "href")
                    r.title = node.attrs.get("alt" if node.tag == "img" else "title")
                    refs.append(r)
                    by_node[id(node)] = r
                    if placement == "after_block":
                        pending.setdefault(id(node.parent), []).append(r)
        elif ev[0] == "close":
            node = ev[1]
            if id(node) in by_node:
                r = by_node[id(node)]
                r.pos = len(text)
                markers.append(r)
            blocks.extend(pending.pop(id(node), []))
        else:
            text += docs.kept(ev[2])
    blocks.extend(pending.pop(id(root), []))
    footer = [r for r in refs if (ip if r.tag == "img" else lp) == "footer"]
    return refs, markers, blocks, footer, depth


def contains_links(node):
    for c in node.children:
        if isinstance(c, str):
            continue
        if c.tag in ("a", "img", "br", "pre") or contains_links(c):
            return True
    return False


DECOR = re.compile(r"[\s>|#*:~=-]+")


def compact(s):
    return DECOR.sub("", s)
