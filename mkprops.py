"""Writes /verif/properties.jsonl (run by hand when the properties change)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe or [], "hook_needed": hook}})
S = "src/fmmax/"
prop("C01", "Eigensolver nondeterminism never reaches physical results",
 "Fields, per-order transmitted and reflected waves and flux, interior net flux, source emission and the set of propagation constants of a stack whose outer layers are uniform do not depend on which legal answer the eigensolver backend gives for each layer: order of the modes, their scale and phase, the basis chosen inside a degenerate subspace, and rounding-level noise. "
 "This holds even when the backend answers differently from one call, layer or batch element to the next.",
 ["schedules","inputs","configurations"],
 "For every stack with uniform outer layers, excitation and interior source, and every sequence of answers an eigensolver may legally return (permutation, complex scale, degenerate mixing, rounding noise, independently per call and per batch element).",
 "The tests run one LAPACK and see one answer per matrix; one test permutes the modes of one interior layer of one stack.",
 [S+"utils.py", S+"fmm.py", S+"scattering.py", S+"fields.py", S+"sources.py"],
 [("optional third-party eigensolver seam", S+"utils.py: import of jeig and the dispatch between it and jax"),
  ("branch selection of the square root of the eigenvalues", S+"fmm.py: numerical eigensolve"),
  ("scattering recursion and field reconstruction written so that mode scale and order cancel", S+"scattering.py, "+S+"fields.py, "+S+"sources.py")],
 observe=["transmitted/reflected amplitudes in the uniform outer layers", "3D fields", "Poynting flux", "emitted amplitudes"])
prop("C02", "Gradients are correct whatever legal answer the eigensolver gives",
 "The gradient of any physical result with respect to permittivity, thickness, wavelength or incidence equals the numerical derivative of that result (for vector formulations, with the tangent vector field held fixed). It is the same for every order, scale and phase of the modes the eigensolver returns, and for a batch each element has the gradient it would have alone.",
 ["schedules","inputs"],
 "For every stack with uniform outer layers whose layer eigenvalues are well separated, every scalar physical figure of merit, and every sequence of legal eigensolver answers.",
 "The tests compare gradients of unphysical scalars of raw eigenvectors, or of a few fixed stacks, for the one answer LAPACK happens to give.",
 [S+"utils.py", S+"fmm.py", S+"scattering.py", S+"fields.py"],
 [("custom reverse rule for the eigendecomposition with relative broadening", S+"utils.py"),
  ("stopped gradients of tangent vector fields", S+"vector.py")],
 observe=["jax.grad of flux- and field-based losses"])
prop("C03", "A stack's scattering matrix does not depend on how it was assembled",
 "The scattering matrix of an ordered list of layers is the same, and equals the one that continuity of the tangential fields at every interface dictates, however it was put together: appending, prepending, joining separately built substacks in any grouping, scanning, taking it from the interior substacks, or rebuilding it after changing the outer thicknesses. "
 "The recorded start and end layers and thicknesses always describe that list, for scalar, batched and mutually broadcast layers, in single and double precision.",
 ["histories","schedules","inputs"],
 "For every list of layers (two or more when an outer thickness is changed), every interleaving of builder steps including abandoned and retried ones and checkpoints through array serialisation, and every thickness and batch shape the functions accept.",
 "The tests check each assembly function once on one unbatched four-layer stack with scalar thickness, in one order, against another assembly function.",
 [S+"scattering.py"],
 [("layer recursion and its reversal", S+"scattering.py: append, prepend"), ("Redheffer star product", S+"scattering.py"), ("phase update on thickness changes", S+"scattering.py: set start/end thickness"), ("scan over layers", S+"scattering.py")],
 state=[{"name":"start/end layer and thickness","meaning":"the outer layers a partial stack can be extended at","where":S+"scattering.py: ScatteringMatrix"}],
 observe=["the four blocks of the returned scattering matrix", "start and end layer data"])
prop("C04", "Waves and fields inside a stack satisfy Maxwell continuity for any split",
 "For any excitation from outside and any source at an interior interface, the wave amplitudes reported in every layer satisfy tangential-field continuity at every interface (with the jump the source current dictates at its interface), and the fields computed from them agree with them. "
 "They do not depend on how the stack was split, in which order the pieces before and after a layer or source were assembled, how a layer was sliced, or into which z-ranges, coordinate sets or amplitude groups the field evaluation was divided.",
 ["histories","schedules","inputs"],
 "For every stack, excitation, source position and orientation, every assembly schedule of the before/after substacks, every subdivision of layers and every partition of the field-evaluation work.",
 "The tests check symmetry and continuity of a few hand-made stacks built in the one standard way.",
 [S+"fields.py", S+"sources.py", S+"scattering.py"],
 [("interior amplitude solve", S+"fields.py"), ("emission matrix and polarization terms", S+"sources.py"), ("interior scattering matrices", S+"scattering.py"), ("z-sliced field evaluation", S+"fields.py")],
 observe=["interior amplitudes", "emitted amplitudes", "3D fields on grids and on coordinates"])
prop("C05", "A batch computes exactly what its elements compute alone",
 "Every batched calculation - eigensolves of any formulation and medium, vector fields, scattering, fields, sources, far field, absorbing boundaries, and gradients through them - gives each element what a call for that element alone gives, however the batch is partitioned into calls, reordered, duplicated or retried. "
 "A poisoned element (non-finite input, or an eigensolve that did not converge) changes no other element's result.",
 ["schedules","inputs","fault_sequences"],
 "For every batch of wavelengths, wavevectors, lattice vectors, permittivities, currents and amplitudes, in every batch shape the functions accept, every partition and order of the batch, and every set of poisoned elements.",
 "The tests compare batched and unbatched calls for a few functions with identical or smooth elements, never with poisoned, reordered or partitioned batches.",
 [S+"fmm.py", S+"vector.py", S+"fft.py", S+"basis.py", S+"fields.py", S+"sources.py", S+"farfield.py", S+"pml.py", S+"utils.py"],
 [("validation and broadcasting of batch dimensions", S+"fmm.py"), ("per-element normalisation of vector fields", S+"vector.py"), ("per-matrix broadening in the eigensolve gradient", S+"utils.py")],
 observe=["all public results, element by element"])
prop("C06", "Concurrent callers never affect each other",
 "When several threads use the library at the same time, on shared or separate inputs, each call returns what it returns when run alone, and no thread observes another thread's settings, intermediate values or arguments changing. No interleaving raises an error or deadlocks.",
 ["schedules","histories"],
 "For every set of public calls in two or more threads and every interleaving of their execution at instruction granularity inside the library.",
 "The test suite is single-threaded.",
 [S+f for f in ("utils.py","fmm.py","fft.py","basis.py","vector.py","scattering.py","fields.py","sources.py","farfield.py","pml.py","beams.py")],
 [("no module-level mutable state; pure functions of their arguments", "src/fmmax")],
 observe=["results per thread", "shared arguments", "jax configuration seen by each thread"])
prop("C07", "An interrupted call leaves no trace and can be retried",
 "If a call is interrupted at any point - keyboard interrupt, out-of-memory, an error from the numerical backend - the exception reaches the caller, and afterwards repeating the call, or making any other call, gives the result it would have given had the interrupted call never been made. Arguments and process-wide settings are left as they were.",
 ["crash_points","fault_sequences","histories"],
 "For every public call, every point of its execution inside the library at which an exception can arise, eager or while being compiled, and every following sequence of calls.",
 "No test interrupts a call.",
 [S+f for f in ("utils.py","fmm.py","fft.py","basis.py","vector.py","scattering.py","fields.py","sources.py","farfield.py","pml.py","beams.py")],
 [("no partially updated state outlives a call", "src/fmmax"), ("compile-time evaluation scopes are context managers", S+"fft.py")],
 observe=["exception type", "results of retried and following calls", "arguments", "jax configuration"])
prop("C08", "Results do not depend on what was computed before",
 "The result of a call depends only on its arguments and the process-wide settings in force: never on earlier calls, on compiled functions being reused with other arguments, on caches being warm, cleared or garbage collected, on objects having passed through flattening, copying or pickling, or on the interpreter's hash seed. "
 "Calling through a compiled function gives the same result as calling directly, including when two arguments have equal sizes but different contents.",
 ["histories","configurations"],
 "For every sequence of public calls, direct or compiled, with arguments that agree in shape but differ in expansion, truncation, formulation, lattice, boundary or material contents, with cache clears, garbage collection and pytree round trips in between.",
 "The tests call each function in isolation with a fresh set of arguments and compile at most one call per function.",
 [S+"basis.py", S+"fft.py", S+"fmm.py", S+"pml.py", S+"scattering.py", S+"vector.py", S+"farfield.py"],
 [("expansions compare and hash by contents when used as compile-time constants", S+"basis.py"), ("enums and parameter records carried as static data", S+"basis.py, "+S+"fmm.py, "+S+"pml.py"), ("shape computations evaluated at compile time", S+"fft.py")],
 state=[{"name":"jit caches keyed on static arguments","meaning":"a wrong key returns another call's program","where":"pytree registrations in "+S+"basis.py, fmm.py, pml.py, scattering.py"}],
 observe=["results against a freshly imported library"])
prop("C09", "Eigensolver failures surface and stay contained",
 "When the eigensolver backend raises, the same exception reaches the caller of the public function, is not converted into a result, and the next call with a working backend is correct. When the backend fails to converge for some batch elements (non-finite output), every result and gradient of those elements is non-finite rather than a plausible number, and all other elements are unaffected.",
 ["fault_sequences","inputs"],
 "For every public calculation involving an eigensolve, every position of a failing call in the sequence of eigensolves, every failure kind (errors, interrupts, memory, non-convergence of any subset of elements), with and without the optional eigensolver package, direct or compiled.",
 "The tests never make the eigensolver fail.",
 [S+"utils.py", S+"fmm.py", S+"scattering.py", S+"fields.py", S+"sources.py"],
 [("eigensolver dispatch", S+"utils.py"), ("non-finite values propagate through linear algebra", S+"scattering.py, "+S+"fields.py")],
 observe=["exceptions", "finiteness of results and gradients per batch element"])
prop("C10", "Running the eigensolve through a host callback changes nothing",
 "On a system whose default device is not the CPU, the eigensolve is carried out on the host; values, gradients, shapes and data types of every result equal those of direct execution, for every batch shape and precision, under compilation and vectorisation, and however often, in whatever order, batching or thread the host executes the request.",
 ["schedules","fault_sequences","configurations"],
 "For every matrix batch and precision, every transformation (direct, compiled, vectorised, differentiated), and every schedule of host executions including duplicates, re-executions, splits and retries after a failed host execution.",
 "The tests run on the CPU only, where this path is never taken.",
 [S+"utils.py", S+"fmm.py"],
 [("device check and host callback with declared result shapes and types", S+"utils.py")],
 observe=["results, dtypes and shapes of eigensolves and of everything computed from them"])
prop("C11", "Documentation generation recovers from any crash or partial output",
 "Whatever an earlier run left behind - a crash at any point, torn or empty files, a full disk, stale pages of renamed or removed items - one successful run of the API page generator leaves exactly the pages a run into an empty directory gives, and the tutorial generator rewrites every page and image of its notebooks completely. "
 "Neither modifies its inputs or files of other kinds in the output directory, and a failed read or write is reported rather than ignored. The order in which the file system lists files does not matter.",
 ["crash_points","fault_sequences","histories","schedules"],
 "For every source tree, every prior content of the output directory, every crash or I/O error at any file operation, torn write, and every directory listing order.",
 "The documentation scripts have no tests.",
 ["docs/gen_API_from_docstrings.py", "docs/gen_tutorials_from_notebooks.py"],
 [("existing pages are removed before regeneration; class pages are truncated, function pages appended", "docs/gen_API_from_docstrings.py"), ("pages and images are rewritten in full", "docs/gen_tutorials_from_notebooks.py")],
 observe=["contents of the output directory after a run", "contents of the input directory"])
prop("C12", "Calls never modify their arguments or process-wide settings",
 "No public call modifies an array, record or container passed to it - also when arguments are plain numpy arrays, views of one another, shared between calls or read-only - or changes jax, numpy or warning settings, and passing read-only or aliased arrays gives the same result as passing fresh writable copies.",
 ["histories","inputs"],
 "For every public function, every argument passed as numpy or jax array, writable, read-only, or as overlapping views, in any sequence of calls sharing them, including calls that fail.",
 "The tests pass fresh jax arrays, which cannot be modified in place, and never look at an argument after the call.",
 [S+f for f in ("farfield.py","sources.py","fields.py","fmm.py","pml.py","vector.py","basis.py","beams.py","fft.py","scattering.py")],
 [("functional array updates", "src/fmmax")],
 observe=["argument bytes before and after", "jax/numpy/warnings settings before and after"])
# --- pure functions of their input: not simulation targets -------------------
def na(id, title, statement, text, why, files, mech):
    prop(id, title, statement, ["inputs"], text, why, files, mech)
na("C13", "Lossless stacks conserve energy and are reciprocal",
 "For a stack of lossless layers the reflected and transmitted flux sum to the incident flux for every excitation, for reciprocal media swapping source and detector leaves transmission unchanged, and lossy passive layers never emit.",
 "For every lossless or passive stack and excitation.", "Tests sample a few stacks.",
 [S+"fmm.py", S+"scattering.py", S+"fields.py"], [("eigenmode formulation", S+"fmm.py")])
na("C14", "Uniform stacks reproduce the analytic (Fresnel) solution",
 "For stacks of uniform layers reflection and transmission equal the transfer-matrix/Fresnel result for every wavelength, incidence, polarization, thickness and permittivity.",
 "For every stack of uniform isotropic layers.", "Tests sample a few angles and permittivities.",
 [S+"fmm.py", S+"scattering.py"], [("closed-form uniform eigensolve", S+"fmm.py")])
na("C15", "Isotropic, anisotropic and magnetic solvers agree where they overlap",
 "A medium that can be described by more than one of the isotropic, anisotropic and general magnetic solvers gives the same physical results with each, rotating structure and excitation rotates the result, and all formulations converge to the same answer.",
 "For every medium expressible in several ways.", "Tests sample a few media.",
 [S+"fmm.py", S+"fmm_matrices.py"], [("Fourier matrices of each formulation", S+"fmm_matrices.py")])
na("C16", "Fourier expansion, transforms and lattice utilities are exact",
 "Transforms to and from an expansion are inverse on band-limited fields, convolution matrices multiply band-limited fields exactly, expansions are symmetric with the zero order first, and reciprocal vectors are dual to the lattice.",
 "For every lattice, expansion and band-limited field.", "Tests sample a few lattices.",
 [S+"fft.py", S+"basis.py"], [("Toeplitz indexing", S+"fft.py"), ("truncation", S+"basis.py")])
na("C17", "Tangent vector fields keep their documented invariances",
 "Tangent fields are bounded by one, follow boundaries, and do not change with unit-cell scale, supercell description, grid resolution or permittivity contrast.",
 "For every pattern and lattice.", "Tests sample a few patterns.",
 [S+"vector.py"], [("single Newton step on a quadratic loss", S+"vector.py")])
na("C18", "Far-field, beam and boundary helpers preserve power and geometry",
 "Far-field profiles and integrated flux conserve the total flux for any angular window and Brillouin grid, rotated beams keep field norms and handedness, and absorbing boundaries leave the interior untouched.",
 "For every flux, grid, beam and boundary parameter.", "Tests sample a few cases.",
 [S+"farfield.py", S+"beams.py", S+"pml.py"], [("unflattening and solid-angle weights", S+"farfield.py")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
