"""run checks against refactored copies of the code: all must stay quiet.

usage: refactor.py [-n] [NAME...] (see refactorings.py; -n: only the tests)
"""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
from pathlib import Path

HERE = Path(__file__).parent
sys.path.insert(0, str(HERE))
PYTHON = "/opt/venv/bin/python"


def span(node):
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    return first - 1, node.end_lineno


def rewrite(source, code, subs=()):
    """put the definitions of code in the place of those of source."""
    for old, new in subs:
        assert old in source, f"not there: {old}"
        source = source.replace(old, new)
    code = textwrap.dedent(code)
    new_lines = code.splitlines()
    added_imports, edits, appended = [], [], []
    tree = ast.parse(source)
    lines = source.splitlines()
    tops = {n.name: n for n in tree.body
            if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for node in ast.parse(code).body:
        if isinstance(node, (ast.Import, ast.ImportFrom, ast.Assign)):
            added_imports += new_lines[node.lineno - 1:node.end_lineno]
            continue
        text = new_lines[slice(*span(node))]
        old = tops.get(node.name)
        if isinstance(node, ast.FunctionDef) or old is None:
            if old is None:
                appended.append(text)
            else:
                edits.append((*span(old), text))
            continue
        methods = {n.name: n for n in old.body
                   if isinstance(n, ast.FunctionDef)}
        extra = []
        for item in node.body:
            itext = new_lines[slice(*(span(item) if hasattr(
                item, "decorator_list") else
                (item.lineno - 1, item.end_lineno)))]
            if isinstance(item, ast.FunctionDef) and item.name in methods:
                edits.append((*span(methods[item.name]), itext))
            else:
                extra += [""] + itext
        if extra:
            edits.append((old.end_lineno, old.end_lineno, extra))
    for start, end, text in sorted(edits, key=lambda e: -e[0]):
        lines[start:end] = text
    source = "\n".join(lines)
    body = ast.parse(source).body
    last = max((n.end_lineno for n in body
                if isinstance(n, (ast.Import, ast.ImportFrom))), default=0)
    lines = source.splitlines()
    block = added_imports[:]
    for text in appended:
        block += ["", ""] + text
    lines[last:last] = block
    return "\n".join(lines) + "\n"


def main():
    from refactorings import REFACTORINGS
    names = [a for a in sys.argv[1:] if a != "-n"]
    for name, file, props, code, subs in REFACTORINGS:
        if names and name not in names:
            continue
        scratch = tempfile.mkdtemp(prefix="refactored")
        copy = f"{scratch}/repo"
        try:
            subprocess.run(["cp", "-a", "/repo", copy], check=True)
            path = Path(copy, "dustgoggles", file)
            new = rewrite(path.read_text(), code, subs)
            path.write_text(new)
            test = subprocess.run(
                [PYTHON, "-B", "-m", "pytest", "-q", "-x",
                 "-p", "no:cacheprovider", "dustgoggles"],
                cwd=copy, capture_output=True, text=True)
            if test.returncode:
                print(name, "TESTS FAIL", test.stdout[-1500:], flush=True)
                continue
            print(name, "tests pass", flush=True)
            if "-n" in sys.argv:
                continue
            for prop in props.split():
                run = subprocess.run(
                    [PYTHON, "-B", "-m", "mc.run", prop], cwd=HERE.parent,
                    env={**os.environ, "DG_REPO": copy,
                         "MC_OUT": f"{scratch}/out", "MC_FIRST": "1"},
                    capture_output=True, text=True)
                word = "quiet" if run.returncode == 0 else "ALARM"
                print(f"  {name} {prop} {word} {run.returncode}", flush=True)
                if run.returncode:
                    print((run.stdout + run.stderr)[-2500:], flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
