"""Formulas rendered by LaTeX."""
import hashlib
import os
import re
import subprocess
from tempfile import TemporaryDirectory

import lxml.etree as et

from elsie.render.backends.svg.utils import rename_ids


def render(text):
    with TemporaryDirectory(prefix="elsie-") as directory:
        with open(os.path.join(directory, "content.tex"), "w", encoding="utf-8") as f:
            f.write(text)
        process = subprocess.Popen(("/usr/bin/pdflatex", "-interaction=batchmode", "content.tex"), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, cwd=directory)
        output, errors = process.communicate()
        if process.returncode != 0:
            with open(os.path.join(directory, "content.log"), encoding="utf-8", errors="replace") as f:
                log = f.read()
            raise Exception("pdflatex failed:\n" + log)
        name = os.path.join(directory, "content.svg")
        process = subprocess.Popen(("/usr/bin/pdf2svg", os.path.join(directory, "content.pdf"), name), stdin=subprocess.PIPE,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=directory)
        output, errors = process.communicate()
        if process.returncode != 0:
            raise Exception("pdf2svg failed:\n" + errors.decode())
        root = et.parse(name).getroot()
    # the ids of different formulas on a slide differ
    h = hashlib.md5()
    h.update(text.encode())
    rename_ids(root, "-" + h.hexdigest())
    return et.tostring(root).decode()


def render_by_run(text):
    with TemporaryDirectory(prefix="elsie-") as directory:
        with open(os.path.join(directory, "content.tex"), "w", encoding="utf-8") as f:
            f.write(text)
        result = subprocess.run(("/usr/bin/pdflatex", "-interaction=batchmode", "content.tex"), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                stderr=subprocess.PIPE, cwd=directory)
        if result.returncode != 0:
            with open(os.path.join(directory, "content.log"), encoding="utf-8", errors="replace") as f:
                log = f.read()
            raise Exception("pdflatex failed:\n" + log)
        name = os.path.join(directory, "content.svg")
        result = subprocess.run(("/usr/bin/pdf2svg", os.path.join(directory, "content.pdf"), name), stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=directory)
        if result.returncode != 0:
            raise Exception("pdf2svg failed:\n" + result.stderr.decode())
        root = et.parse(name).getroot()
    h = hashlib.md5()
    h.update(text.encode())
    rename_ids(root, "-" + h.hexdigest())
    return et.tostring(root).decode()


def rename(root, suffix):
    ids = set()
    for e in root.iter():
        name = e.get("id")
        if name:
            ids.add(name)
            e.set("id", name + suffix)

    def renamed(match):
        name = match.group(2)
        if name in ids:
            return match.group(1) + name + suffix
        return match.group(0)

    for e in root.iter():
        for key, value in e.attrib.items():
            if key.endswith("href"):
                e.set(key, re.sub(r"^(#)(.+)$", renamed, value))
            else:
                e.set(key, re.sub(r"(url\(\s*[\"']?#)([^\s\"')]+)", renamed, value))


def pixels(text):
    unit = ""
    while text and text[-1].isalpha():
        unit = text[-1] + unit
        text = text[:-1]
    if unit == "mm":
        return float(text) * 3.77953
    if unit == "cm":
        return float(text) * 37.7953
    if unit == "pt":
        return float(text) * 1.33333
    return float(text) * 1.0
