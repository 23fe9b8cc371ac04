"""A run after one that failed gives the same pages as a run into an empty directory."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import contextlib, io, tempfile, types, importlib.util


def load(name, **stubs):
    for module, attributes in stubs.items():
        sys.modules[module] = types.ModuleType(module)
        for k, v in attributes.items():
            setattr(sys.modules[module], k, v)
    spec = importlib.util.spec_from_file_location(name, os.path.join(os.getcwd(), "docs", name + ".py"))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


class Doc:
    params, returns, long_description = [], None, None

    def __init__(self, text):
        self.short_description = text


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def tree(path):
    out = {}
    for name in sorted(os.listdir(path)):
        with open(os.path.join(path, name), "rb") as f:
            out[name] = f.read()
    return out



module = load("gen_API_from_docstrings", docstring_parser={"parse": Doc})
with tempfile.TemporaryDirectory() as d:
    write(d + "/in/a.py", 'def fn():\n    "The docstring."\n')
    module.traverse_directory(d + "/in", d + "/clean")
    write(d + "/in/b.py", 'def fn(:\n')
    try:
        module.traverse_directory(d + "/in", d + "/out")
    except SyntaxError:
        pass
    os.remove(d + "/in/b.py")
    module.traverse_directory(d + "/in", d + "/out")
    same = tree(d + "/clean") == tree(d + "/out")
print(same)
sys.exit(0 if same else 1)
