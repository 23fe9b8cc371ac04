"""The tutorial generator rewrites an image an earlier run left incomplete."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import contextlib, io, tempfile, types, importlib.util


def load(name, **stubs):
    for module, attributes in stubs.items():
        sys.modules[module] = types.ModuleType(module)
        for k, v in attributes.items():
            setattr(sys.modules[module], k, v)
    spec = importlib.util.spec_from_file_location(name, os.path.join(os.getcwd(), "docs", name + ".py"))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


class Doc:
    params, returns, long_description = [], None, None

    def __init__(self, text):
        self.short_description = text


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def tree(path):
    out = {}
    for name in sorted(os.listdir(path)):
        with open(os.path.join(path, name), "rb") as f:
            out[name] = f.read()
    return out



class Exporter:
    def from_notebook_node(self, notebook, resources=None):
        return "page", {"outputs": {"image.png": b"complete image"}}


module = load(
    "gen_tutorials_from_notebooks",
    nbformat={"read": lambda f, as_version=4: f.read()},
    nbconvert={"MarkdownExporter": Exporter},
)
with tempfile.TemporaryDirectory() as d:
    write(d + "/in/a.ipynb", "{}")
    write(d + "/out/image.png", "compl")
    os.utime(d + "/in/a.ipynb", (1, 1))
    with contextlib.redirect_stdout(io.StringIO()):
        module.export_notebooks(d + "/in", d + "/out")
    result = tree(d + "/out")
print(result)
sys.exit(0 if result["image.png"] == b"complete image" else 1)
