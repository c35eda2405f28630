"""Specification tables of the cache of text measurements (analysed, never executed)."""
import json
import os
from typing import Union

from elsie.render.backends.svg.backend import VERSION_REGEX, detect_inkscape_bin
from elsie.render.backends.svg.draw import draw_text
from elsie.render.backends.svg.query import compute_query
from elsie.render.inkscape import InkscapeShell
from elsie.utils.sxml import Xml
from elsie.version import VERSION


def cache_file(self):
    return os.path.join(self.cache_dir, "queries3.cache")


def process(self, method, data):
    key = (method, data)
    value = self.query_cache.get(key)
    if value is None:
        value = compute_query(self.inkscape, method, data)
        self.query_cache[key] = value
    self.used_query_cache[key] = value
    return value


def load(self):
    name = os.path.join(self.cache_dir, "queries3.cache")
    if not os.path.isfile(name):
        return {}
    with open(name) as f:
        config = json.load(f)
    if config.get("version") != VERSION or config.get("inkscape") != self.inkscape_version:
        return {}
    return dict((tuple(k), v) for k, v in config.get("queries", ()))


def save(self, cache):
    name = os.path.join(self.cache_dir, "queries3.cache")
    temp = name + ".tmp"
    with open(temp, "w") as f:
        json.dump({"version": VERSION, "inkscape": self.inkscape_version, "queries": list(cache.items())}, f)
    os.replace(temp, name)


def prune(self):
    self.query_cache = dict(self.used_query_cache)


def prune_in_order(self):
    # what is used is there, with the same values
    self.query_cache = {key: value for key, value in self.query_cache.items() if key in self.used_query_cache}


def save_all(self):
    self._save_query_cache(self.query_cache)


def width(self, parsed_text, style, styles, id_index=None):
    return text_query(self, "inkscape-w", parsed_text, style, styles, id_index)


def height(self, parsed_text, style, styles, id_index=None):
    return text_query(self, "inkscape-h", parsed_text, style, styles, id_index)


def left(self, parsed_text, style, styles, id_index=None):
    return text_query(self, "inkscape-x", parsed_text, style, styles, id_index)


def text_query(self, query, parsed_text, style, styles, id_index):
    xml = Xml()
    draw_text(xml, 0, 0, parsed_text, style, styles, id="target", id_index=id_index)
    return self.process_query(query, xml.to_string())


def backend_init(self, inkscape: Union[str, InkscapeShell] = None, cache_dir="./elsie-cache"):
    self.dimensions = None
    self.cache_dir = os.path.abspath(cache_dir)
    if isinstance(inkscape, InkscapeShell):
        self.inkscape = inkscape
    else:
        self.inkscape = InkscapeShell(inkscape or os.environ.get("ELSIE_INKSCAPE") or detect_inkscape_bin())
    self.inkscape_version = self.inkscape.get_version()
    match = VERSION_REGEX.search(self.inkscape_version)
    if match:
        int(match.group(1).split(".")[0])
    self.query_cache = self._load_query_cache()
    self.used_query_cache = {}
