"""Stand-in for nbconvert (not installed here). Extracted outputs are named as nbconvert's
ExtractOutputPreprocessor names them: {unique_key}_{cell_index}_{index}{extension}, where
unique_key is taken from the resources and is "output" by default."""
import base64
import os

import nbformat


class MarkdownExporter:
    file_extension = ".md"

    def __init__(self, config=None, **kw):
        pass

    def from_file(self, f, resources=None, **kw):
        return self.from_notebook_node(nbformat.read(f, as_version=4), resources=resources, **kw)

    def from_filename(self, filename, resources=None, **kw):
        with open(filename, encoding="utf-8") as f:
            return self.from_file(f, resources=resources, **kw)

    def from_notebook_node(self, nb, resources=None, **kw):
        res = dict(resources or {})
        res.setdefault("metadata", {})
        res["output_extension"] = ".md"
        key = res.get("unique_key", "output")
        folder = res.get("output_files_dir")
        outputs = res["outputs"] if isinstance(res.get("outputs"), dict) else {}
        res["outputs"] = outputs
        body = []
        for ci, cell in enumerate(nb.cells):
            src = "".join(cell["source"])
            if cell["cell_type"] == "markdown":
                body.append(src)
                continue
            body.append("```python\n" + src + "\n```")
            for oi, out in enumerate(cell.get("outputs", [])):
                if out.get("output_type") == "stream":
                    body.append("    " + "".join(out["text"]))
                for mime, data in sorted(out.get("data", {}).items()):
                    if mime == "image/png":
                        name = f"{key}_{ci}_{oi}.png"
                        path = os.path.join(folder, name) if folder else name
                        outputs[path] = base64.decodebytes("".join(data).encode())
                        body.append(f"![png]({path})")
                    elif mime == "text/plain":
                        body.append("    " + "".join(data))
        return "\n\n".join(body) + "\n", res
