"""Specification tables of the conversation with Inkscape (analysed, never executed)."""
import contextlib
import os
import subprocess
import tempfile

from elsie.render.inkscape import svg_file_input


@contextlib.contextmanager
def document(inkscape, svg, binary=False):
    with tempfile.NamedTemporaryFile("wb", suffix=".svg") as f:
        f.write(svg if binary else svg.encode())
        f.flush()
        inkscape.run_command("file-open:" + f.name)
        try:
            yield
        finally:
            inkscape.run_command("file-close")


def use_document(inkscape, svg, action):
    with tempfile.NamedTemporaryFile("wb", suffix=".svg") as f:
        f.write(svg.encode())
        f.flush()
        inkscape.run_command("file-open:" + f.name)
        try:
            action()
        finally:
            inkscape.run_command("file-close")


def use_binary_document(inkscape, svg, action):
    with tempfile.NamedTemporaryFile("wb", suffix=".svg") as f:
        f.write(svg)
        f.flush()
        inkscape.run_command("file-open:" + f.name)
        try:
            action()
        finally:
            inkscape.run_command("file-close")


def client(inkscape, svg, action):
    with svg_file_input(inkscape, svg):
        action()


def binary_client(inkscape, svg, action):
    with svg_file_input(inkscape, svg, binary=True):
        action()


def shell_init(self, inkscape_bin, text_to_path=False):
    self.text_to_path = text_to_path
    self.process = subprocess.Popen([inkscape_bin, "--shell"], stdout=subprocess.PIPE, stdin=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                    universal_newlines=True)
    self.wait_for_prompt()
    self.run_command("file-close")


def prompt(self):
    chars = []
    stdout = self.process.stdout
    while True:
        c = stdout.read(1)
        if not c:
            raise Exception
        if c == " " and chars and chars[-1] == ">" and (len(chars) == 1 or chars[-2] == "\n"):
            return "".join(chars[:-2])
        chars.append(c)


def export(self, source, target, type):
    with svg_file_input(self, source, binary=True):
        self.run_command("export-area-page")
        self.run_command("export-png-color-mode:RGBA_8")
        self.run_command("export-background-opacity:0")
        self.run_command("export-type:" + type)
        self.run_command("export-filename:" + target)
        if self.text_to_path:
            self.run_command("export-text-to-path")
        self.run_command("export-do")


def width(self, svg, id):
    return query(self, svg, "query-width", id)


def height(self, svg, id):
    return query(self, svg, "query-height", id)


def left(self, svg, id):
    return query(self, svg, "query-x", id)


def query(self, svg, query, id):
    with svg_file_input(self, svg):
        self.run_command("select:" + id)
        value = self.run_command(query)
        try:
            return float(value)
        except ValueError:
            raise Exception


def command(self, command):
    self.process.stdin.write(command + "\n")
    self.process.stdin.flush()
    output = self.wait_for_prompt().strip()
    if output:
        output = output.splitlines(keepends=False)[-1]
    return output


def version(self):
    return self.run_command("inkscape-version")


def export_file(inkscape, source, target, type):
    inkscape.convert_to_pdf(source, target, type)
    if not os.path.isfile(target):
        raise Exception
