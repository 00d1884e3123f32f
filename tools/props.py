HOOKS = None

# --------------------------------------------------------------------- shim build
SB = dict(scenario="shim_build", runs={"quick": 16000, "thorough": 400000}, cap_s={"quick": 150, "thorough": 780},
          rule="One case is one simulated run: 1-4 processes x 1-2 threads asking for the shim library while sources are edited, "
               "packages upgraded, the cache wiped, the clock jumps and processes, compilers, linkers and system calls fail. "
               "Non-trivial: at least one call succeeded, at least four task switches, and a compile or a fault happened; "
               "distinct by the digest of the whole event log.",
          assumptions=["the compiler writes its output the way GNU ld was observed to (unlink, create, write in pieces, chmod)",
                       "one local POSIX file system; flock and rename behave as POSIX says",
                       "a package upgrade restarts the interpreters that imported the old package"])
SBN = ("Real build/cache module, one instance per simulated process, over a simulated file system, compiler, clock and scheduler; "
       "seeded sampling of schedules and faults, not exhaustive.")
SBF = [SHIM]
SBM = [("freshness test before and after taking the lock", f"{SHIM}: ensure_built"),
       ("exclusive file lock on the cache directory", f"{SHIM}: _lock"),
       ("build aside, then publish by rename", f"{SHIM}: ensure_built/_build")]
SBO = ["return value and exception of ensure_built()", "the library file in the cache directory"]

P("C01", "Shim library is complete and loadable whenever a build call has succeeded",
  "Whenever a request to make the tabulation library available reports success, the library file it names exists, is complete and loadable. "
  "It stays so from then on at every instant, for every process sharing the cache, whatever other processes, later rebuilds, failed rebuilds or crashes do, until the user deletes the cache.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every interleaving of any number of processes and threads, with compiler, linker, disk and process failures at any point, and any history of source edits",
  "The one parallel-build test starts a few real processes once on a healthy disk; it cannot place a kill, a full disk or a reader inside another process's link step.",
  SBF, SBM, observe=SBO, spec=SB, note=SBN)
P("C02", "Shim library is never older than the sources that were there at the call",
  "A successful request for the tabulation library yields one built from the sources and the build recipe as they were when the request began, or newer ones. "
  "That holds when a source is edited while another process is compiling it, when files carry the packager's old timestamps, and when the clock jumps.",
  ["schedules", "histories", "fault_sequences"],
  "every history of edits, upgrades, clock jumps and builds by any number of processes, and every interleaving of an edit with a build in progress",
  "Tests build once from an unchanging checkout, with file times in order; no test edits the source during a build.",
  SBF, SBM, observe=SBO, spec=SB, note=SBN)
P("C03", "Shim library: one compile at a time, and none when it is up to date",
  "At most one live process sharing a cache directory compiles the tabulation library at any moment. "
  "A request that finds a complete, up-to-date library, at once or after waiting for another process's build, does not compile again.",
  ["schedules", "crash_points", "fault_sequences"],
  "every interleaving of processes and threads sharing a cache that nobody deletes meanwhile",
  "The existing parallel-build test samples a handful of real interleavings with one start state.",
  SBF, SBM, observe=["compiler processes started"], spec=SB, note=SBN)
P("C04", "Shim build failures are reported, leave nothing locked, and are recoverable",
  "If the compiler or the file system fails under a request for the tabulation library, that request raises instead of reporting success without a usable library, and a request under which nothing failed does not raise. "
  "No failure, interrupt or crash leaves the cache locked or poisoned: once faults stop, the next request succeeds within a bounded time without manual cleaning, and a failed request that was not killed leaves no partial files behind.",
  ["schedules", "crash_points", "fault_sequences"],
  "every placement of compile errors, full disks, killed compilers, killed or interrupted processes and failing system calls, in every interleaving",
  "No test makes the compiler, the disk or a process fail.",
  SBF, SBM, observe=SBO, spec=SB, note=SBN)

P("C20", "The tabulation library is built by the right compiler, in the right place",
  "The tabulation library is compiled by the compiler the user named with CXX, else by one of the active environment, and only then by one on the search path; without any the request fails, and it succeeds once one is installed. "
  "The library is written in the cache directory the user chose (or the default one) and nowhere else, with the headers and the element library of the active environment and nothing else's.",
  ["configurations", "histories", "fault_sequences", "schedules"],
  "every combination of environment variables, installed compilers and cache locations, installed or removed at any time, with any failure of the compiler, the disk or a process",
  "Tests run with the one compiler, environment and cache location of the machine they are on.",
  SBF, [("choice of the compiler", f"{SHIM}: _find_cxx"), ("choice of the cache directory", f"{SHIM}: _cache_dir"), ("compile command", f"{SHIM}: _build")],
  observe=["compiler command lines", "files written"], spec=SB, note=SBN)

# ----------------------------------------------------------------- shim run time
def RT(q, t, rule, salt):
    return dict(scenario="shim_rt", salt=salt, runs={"quick": q, "thorough": t}, cap_s={"quick": 200, "thorough": 780}, rule=rule,
                assumptions=["threads interleave sequentially consistently between instrumented accesses; weaker orders are covered by the "
                             "happens-before race detector, not by executing them",
                             "libbasix itself (uninstrumented) is atomic between its entry and exit and thread-safe for const calls"])
RTR = ("One case is one simulated run: 1-4 threads registering, tabulating, querying and asking for scratch in 1-3 phases, resets in between, "
       "every memory access, lock, atomic and allocation a possible switch, allocations failing where the case says so. "
       "Non-trivial: at least three switches and two successful registrations or scratch requests; distinct by event-log digest.")
RTN = "Real shim source (instrumented) over real libbasix under a seeded thread scheduler with race detector, tracked heap and failing allocations; sampling."
RTM = [("element registry and parameter index", f"{SHIMCPP}: registry/index/register_impl"), ("guards around every entry point", f"{SHIMCPP}: *_impl")]
P("C05", "Each tabulation element is registered once, whichever threads ask",
  "However many threads register elements at once, equal parameters always give the same non-negative handle, different parameters different handles, and exactly one element per parameter set is kept until a reset. "
  "Registration by one thread never disturbs, invalidates or races with registration or tabulation by another.",
  ["schedules", "inputs", "histories"],
  "every interleaving of registrations, size queries and tabulations by any number of threads, over any sequence of resets",
  "The shim tests call it from one thread only.",
  [SHIMCPP], RTM, observe=["handles returned", "registry size"], spec=RT(6000, 200000, RTR, "C05"), note=RTN)
P("C06", "A failed shim call returns an error, changes nothing and can be retried",
  "When an allocation fails or the element library rejects the parameters, a call into the tabulation library returns a negative code (or no buffer) and never lets an exception out or ends the process. "
  "A failed call leaves the set of registered elements as it was, blocks no other thread, and the same call succeeds once memory is available.",
  ["fault_sequences", "schedules", "inputs"],
  "a failure of any allocation inside any call, alone or repeated, in any thread, and any invalid parameter set",
  "No test makes an allocation fail or passes rejected parameters.",
  [SHIMCPP], RTM, observe=["return codes", "registry size"], spec=RT(6000, 200000, RTR, "C06"), note=RTN)
P("C07", "Tabulation gives the element library's values, in bounds, under concurrency",
  "Tabulating a registered element gives exactly the shape and values the element library gives for those points and derivatives, whatever other threads register or tabulate meanwhile. "
  "Nothing outside the caller's buffer is ever touched: a handle never given out (or given out before a reset) and a buffer that is too small are refused with a negative code and no output.",
  ["schedules", "inputs", "histories"],
  "every interleaving of threads, every handle value, element, derivative order, number of points and buffer capacity",
  "Tests compare single-threaded tabulations with exactly sized buffers and valid handles.",
  [SHIMCPP], RTM + [("bounds checks", f"{SHIMCPP}: shape_impl/tabulate_impl")], observe=["return codes", "output buffer and its surroundings"],
  spec=RT(6000, 200000, RTR, "C07"), note=RTN)
P("C08", "Kernel scratch memory is private to its thread, large enough, or refused",
  "A request for scratch memory returns a buffer with room for at least the number of values asked for, which no other thread and no other precision is given while the thread lives, or reports failure by returning none. "
  "After a failed request the next one that fits succeeds.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of requests of any sizes by any threads, with any allocation failing",
  "No test asks for scratch memory at all.",
  [SHIMCPP], [("thread-local growing buffer", f"{SHIMCPP}: get_scratch_impl")], observe=["buffers returned"],
  spec=RT(6000, 200000, RTR, "C08"), note=RTN)

# ------------------------------------------------------------------------ generated kernels
CG = "python/qugar/dolfinx"
KB = lambda p, q, t, rule: dict(scenario="kernel", salt=p, runs={"quick": q, "thorough": t}, cap_s={"quick": 150, "thorough": 780}, rule=rule,
        assumptions=["FFCx's kernel text, tables and IR look like the stand-in written after its 0.10 sources produces them",
                     "the reference integrates with Basix tabulations in Python; agreement to rounding of the scalar type",
                     "threads interleave sequentially consistently; weaker orders are covered by the happens-before detector"])
KR = ("One case is one simulated run: 1-2 random forms (cell, elements, coefficients, constants, normals, measures, several quadratures, scalar type) compiled by the real "
      "generator and gcc, run by 1-3 simulated threads on cut, full and empty entities with random points, {x}. "
      "Non-trivial: a kernel was generated and at least two results on cut entities were compared with the reference; distinct by event-log digest.")
KN = "Real code generator, generated C and shim (instrumented) over libbasix; FFCx/UFL/DOLFINx replaced by a stand-in generating FFCx-like kernels; sampling."
KF = [f"{CG}/{x}.py" for x in ("compiler", "codegeneration", "_kernel_body", "fe_table", "integral_data", "quadrature_data", "boundary")]
KM = [("rewrite of the FFCx kernel into loader, tabulation and loops", f"{CG}/codegeneration.py: _IntegralModifier"),
      ("tables read back from the FFCx code and IR", f"{CG}/fe_table.py: extract_FE_tables"),
      ("quadratures of an integral", f"{CG}/integral_data.py: extract_integral_data")]
P("C09", "A generated kernel integrates its form with the rule of each entity",
  "For every form the compiler accepts, the kernel adds to the element tensor exactly the integral of that form over the entity it is called for: with the entity's own points, weights and normals if it is cut, with the standard quadrature if it is full, and nothing if it is empty. "
  "This holds for any elements, coefficients, several quadratures in one integral, any scalar type, whichever threads run it and whichever session compiled it; forms that cannot be handled are refused with an error.",
  ["inputs", "configurations", "schedules"],
  "every form, cell, element, scalar type, mix of measures, set of points (including none), and every interleaving of kernel calls in several threads",
  "The tests of generated kernels need FEniCSx and integrate a few forms with known values, one thread, one session.",
  KF, KM, observe=["element tensor after a kernel call", "exception of compile_ufl_objects", "order of quadratures in the integral data"],
  spec=KB("C09", 1600, 60000, KR.format(x="in interleaved calls")), note=KN)
P("C10", "A kernel call that runs out of memory stays in bounds and spoils nothing",
  "When an allocation fails in the middle of a kernel call, in any thread, the process survives, nothing outside the kernel's tensor and buffers is read or written, and other threads' calls are right. "
  "The interrupted call adds all of its integral or none of it, and every call after memory is back is right again, also after the element registry was used by other kernels.",
  ["fault_sequences", "schedules", "inputs"],
  "a failure of any allocation under any kernel call (first use in a thread, growth of the scratch memory, element registration), in any interleaving",
  "No test makes memory run out, and kernels have no way to report it, so nothing else would notice.",
  [f"{CG}/codegeneration.py", SHIMCPP], [("scratch request and its check", f"{CG}/codegeneration.py: _create_custom_data_callers"), ("error codes of the shim", f"{SHIMCPP}: *_impl")],
  observe=["element tensor after a kernel call", "memory accesses of kernels and shim"],
  spec=KB("C10", 1200, 60000, KR.format(x="with allocations failing at random places")), note=KN)

# ------------------------------------------------------------------------ jit
JIT = "python/qugar/dolfinx/jit.py"
JB = dict(scenario="jit", runs={"quick": 8000, "thorough": 300000}, cap_s={"quick": 200, "thorough": 780},
          rule="One case is one simulated run: 1-3 processes or ranks x 1-2 threads asking for compiled kernels of 1-3 forms under several options, "
               "with compile, code generation, shim build, disk and process failures, shim-cache wipes and a second program sharing the cache. "
               "Non-trivial: at least two kernels returned and three task switches; distinct by event-log digest.",
          assumptions=["ffcx's cache lookup and dolfinx's rank-0-first decorator behave like the stubs written after their 0.10 sources",
                       "a process killed while compiling may leave a claim that only the user removes (upstream behaviour, excused)"])
JN = "Real jit and shim-cache modules, one instance per simulated process; ffcx/dolfinx/cffi replaced by stubs; sampling."
JM = [("signature with the custom marker", f"{JIT}: compile_forms"), ("exclusive claim, ready file, rename on failure", f"{JIT}: compile_forms/_compile_objects")]
P("C11", "A compiled-kernel request yields its own kernel or an error, and recovers",
  "Every request for a compiled custom kernel returns the kernel, source and integral data of exactly that form and those options, never another form's, another option set's or a standard kernel's (several at once: each its own, in the order given), or raises, as for something that is not a form; on several ranks it succeeds or raises on all alike. "
  "A kernel already in the cache is not compiled again and no two callers compile the same one at once. "
  "After a failed compilation the next request compiles afresh and succeeds once the cause is gone.",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "every interleaving of requests from threads, processes and ranks sharing caches, any mix of forms and options, any placement of compile, generation and disk failures",
  "The cache tests need FEniCSx, run in one process, compile without failures and only time a second request.",
  [JIT], JM, observe=["result or exception of a kernel request", "compilations started"], spec=JB, note=JN)
P("C12", "Compiling a kernel leaves the caller's process state as it was",
  "After a request for a compiled kernel ends, successfully or not, the environment, the root logger's handlers and standard output are what they were before, whatever other threads compiled meanwhile. "
  "Nothing the compiler prints reaches the caller's log or standard output, unless verbose output was asked for, and then all of it does. "
  "The caller's option dictionaries and the option defaults are never changed.",
  ["schedules", "fault_sequences", "histories"],
  "every failure point of a compilation and every interleaving of compilations in several threads of one process",
  "No test makes a compilation fail, compiles from two threads, or looks at process state afterwards.",
  [JIT], [("save and restore around the compiler call", f"{JIT}: _deduped_ldshared/_compile_objects")],
  observe=["os.environ", "logging root handlers", "sys.stdout"], spec=JB, note=JN)
P("C13", "Whoever obtains a kernel also has the tabulation library it is linked to",
  "When a request for a compiled kernel succeeds, the kernel is linked to the tabulation library and that library is in place to load it, whether the kernel was compiled now or found in the cache. "
  "Deleting the library's own cache between requests never makes later requests fail.",
  ["histories", "schedules", "fault_sequences"],
  "every history of deletions of either cache and of requests by any number of processes",
  "No test deletes the shim cache while compiled kernels remain cached.",
  [JIT, SHIM], [("the library is ensured before kernels are compiled or loaded", f"{JIT}: _compile_objects/compile_forms")],
  observe=["result or exception of a kernel request"], spec=JB, note=JN)

# ------------------------------------------------------------------------ forms, packing, meshes
DX = "python/qugar/dolfinx"
FORMS, COEF, PETSC, BDRY, QUTILS = (f"{DX}/{x}.py" for x in ("forms", "custom_coefficients", "petsc", "boundary", "custom_quad_utils"))
MS = "python/qugar/mesh"
UNF, UABC, MF, MESH, TPM = (f"{MS}/{x}.py" for x in ("unfitted_domain", "unfitted_domain_abc", "mesh_facets", "mesh", "tp_mesh"))


def FEM(salt, q, t, what, nontriv):
    return dict(scenario="fem", salt=salt, runs={"quick": q, "thorough": t}, cap_s={"quick": 200, "thorough": 780},
                rule=f"One case is one simulated run: 1-3 ranks x 1-2 threads sharing an unfitted mesh per rank (random partition, ghosts, active cells, cut/full/empty truth) {what} "
                     f"while getters, quadratures, form creation, compilation and packing fail as the case says. Non-trivial: {nontriv}; distinct by event-log digest.",
                assumptions=["DOLFINx, UFL, FFCx, PETSc and the C++ domain behave like the stand-ins written after their 0.10 sources (scenarios/femfake.py)",
                             "mixed-dimension and interior-facet frames follow FFCx's quadrature permutations"])


FN = "Real Python modules, one instance per simulated rank, over stand-ins for DOLFINx, UFL, FFCx, PETSc and the C++ domain; truth known by construction; sampling."
P("C14", "Compiling a form leaves the caller's form, measures and options as they were",
  "Making an unfitted-boundary measure, or compiling a form for an unfitted domain, successfully or not, once or many times, in one thread or several, changes nothing the caller can see: "
  "the form, its integrals, their ids, subdomain data (also the lists' content) and metadata, the measures they came from, and the metadata and option dictionaries passed are the same before and after. "
  "Compiling the same form again therefore gives the same integrals over the same entities.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every form, any number of compilations of it in any order and interleaving, any failure inside one",
  "Tests compile each form once and never look at the caller's objects afterwards.",
  [FORMS, BDRY], [("everywhere-facet integrals are rebuilt, not edited", f"{FORMS}: _modify_everywhere_exterior_facet_integrals"),
                  ("options copied before the scalar type is set", f"{FORMS}: form_custom")],
  observe=["the caller's form, integrals, metadata and options"],
  spec=FEM("C14", 1000, 40000, "building the same forms again and again", "a form was built and at least two operations ran"), note=FN)
P("C15", "Every term of a form is integrated once, over exactly the entities it names",
  "A form compiled for an unfitted domain integrates each of its terms exactly once over exactly the entities its measure names: "
  "numbered ids, tuples of ids, everywhere (exterior facets including the unfitted boundary), with subdomain data given as tags or lists, also ids the form does not use. "
  "A surface term carries one factor, the one that maps its area; a list of forms gives one compiled form each, in order, with the scalar type, quadrature, constants, arguments, entity maps and options asked for.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every combination of integral types, ids, tuples and subdomain data, every partition of the mesh, and every history of earlier builds and failures",
  "Tests assemble a few forms with one way of naming entities each, on one rank.",
  [FORMS, BDRY, UABC], [("synthetic id for everywhere exterior facets", f"{FORMS}: _modify_everywhere_exterior_facet_integrals"),
                        ("subdomain data to integration domains", f"{FORMS}: form_custom"), ("surface factor of the boundary measure", f"{BDRY}: ds_bdry_unf")],
  observe=["integration domains and integrands handed to DOLFINx"],
  spec=FEM("C15", 1000, 40000, "building forms with every kind of measure and subdomain data", "a form was built and its entities checked"), note=FN)
P("C16", "Each entity is integrated with its own quadrature and current coefficients",
  "In the packed data a kernel receives, every entity of every integral carries its own standard coefficient values, its own marker (cut, full or empty) and, if cut, exactly its own quadrature, placed as each of its cells sees it. "
  "Interior and mixed-dimension facets, complex and single precision, several integrals and ranks without entities are no exception. "
  "After coefficients change, the next assembly by a form or by the linear and nonlinear solvers uses the new values.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every assignment of cut, full and empty entities, every integral type, scalar type, number of coefficients, facet permutation and partition, every history of packing, updating, solving and failing",
  "Tests compare a few assembled scalars; a wrong entity, side or stale value that does not move those sums is not seen, and failures are never injected.",
  [COEF, QUTILS, PETSC], [("offset column and appended per-entity data", f"{COEF}: _compute_offsets/_copy_vals"),
                          ("facet frames and permutations", f"{QUTILS}: permute_facet_points"), ("refresh before every assembly", f"{PETSC}: LinearProblem/NonlinearProblem")],
  observe=["coefficient arrays handed to the assembler"],
  spec=FEM("C16", 1000, 40000, "packing, changing coefficients and solving linear and nonlinear problems", "packed coefficients of a form were decoded and checked"), note=FN)
P("C17", "Cut, full and empty sets never depend on past queries, failures or threads",
  "On every rank the cut, full and empty cells and facets of an unfitted domain, for exterior and interior integrals, and the tags made from them, are those of the geometry. "
  "They stay the same whichever queries were made before and in which order, whichever of them failed, and whatever other threads ask at the same time.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence and interleaving of queries and tag creations, any of them failing midway, on every partition",
  "Tests ask each question once, in one order, without failures.",
  [UNF, UABC], [("lazily cached sets", f"{UNF}: _get_*_facets_*_integral"), ("tags from sets", f"{UABC}: create_facet_tags/create_cell_meshtags")],
  observe=["get_*_cells, get_*_facets, get_all_facets, create_*tags"],
  spec=FEM("C17", 1000, 40000, "querying sets and creating tags in any order", "at least two sets or tags were checked"), note=FN)
P("C18", "Cell and node numbers translate correctly on every rank of any mesh",
  "On every rank of a mesh, distributed or not, with inactive cells, merged nodes or no local cells at all, original, local and global cell and node numbers translate into each other correctly, "
  "with -1 for what the rank does not have, and the mesh reports its inactive cells and merged nodes alike on all ranks. "
  "A mesh is made with the ghost mode, degree, scalar type and active cells asked for, and all ranks take part in the same collective calls.",
  ["configurations", "inputs", "schedules"],
  "every mesh size, degree, partition, ghost mode, set of active cells and merge of nodes, on any number of ranks in any interleaving",
  "The mesh tests that exist need FEniCSx and look at one rank with cells.",
  [MESH, TPM], [("search maps", f"{MESH}: _find_in_array"), ("rank-0 creation and distribution", f"{MESH}: _create_mesh")],
  observe=["get_*_ids, has_inactive_cells, has_merged_nodes, merged_nodes_map"],
  spec=FEM("C18", 6000, 200000, "making Cartesian, tensor-product and merged meshes and translating numbers", "maps of a mesh were checked"), note=FN)
P("C19", "Facet queries on ranks give each facet exactly once, with the right numbers",
  "On every rank, the exterior, interior and all-facets queries list each pair of an owned cell and one of its facets of that kind exactly once, or each owned facet once when a single side is asked for. "
  "The facets, cells and tags of each face of a tensor-product mesh are exactly those lying on that face, and translations of facets between numberings are inverse to each other. "
  "Joining, intersecting, subtracting and searching facet lists act as on sets and leave their operands as they were.",
  ["configurations", "inputs", "schedules"],
  "every mesh size, dimension, partition, ghost mode and set of active cells, on any number of ranks including ranks without cells",
  "The tests that exist need FEniCSx and check one rank, where local and global numbers coincide.",
  [MF, TPM], [("local facet ids and owned cells", f"{MF}: create_interior_mesh_facets/create_all_mesh_facets"), ("face numbering", f"{TPM}: get_face_facets")],
  observe=["create_*_mesh_facets, get_face_facets, create_facet_bdry_tags, MeshFacets"],
  spec=FEM("C19", 6000, 200000, "making meshes and querying facets, faces and tags", "facet queries of a mesh were checked"), note=FN)

# ------------------------------------------------------------------------ the C++ core
CP = "cpp/qugar"
QUAD = lambda p, q, t, what, nt: dict(scenario="cppquad", salt=p, runs={"quick": q, "thorough": t}, cap_s={"quick": 200, "thorough": 780},
        rule=f"One case is one simulated run: 1-3 implicit domains (linear, spherical, ellipsoidal, cylindrical, polynomial, torus, affine or negated) on 2D and 3D grids, {what} "
             "asked for by 1-3 threads, every memory access a possible switch; the user's function, an allocation or the disk fails where the case says so. "
             f"Non-trivial: {nt}; distinct by the digest of the whole event log.",
        assumptions=["algoim, which is not installed, behaves as the stand-in written after its documentation: points inside the domain, positive weights, accurate to the tolerances used",
                     "threads interleave sequentially consistently; weaker orders are covered by the happens-before detector",
                     "a write to the simulated disk is lost, cut short or refused only in the ways POSIX allows"])
QN = "Real C++ core (instrumented, except Bezier reparametrization) over a stand-in for algoim, a seeded thread scheduler, race detector, tracked heap, failing functions, allocations and disk; sampling."

P("C21", "Quadratures cover exactly the requested cells, facets and boundaries",
  "A quadrature of cells, facets or unfitted boundaries holds one entry per requested entity in the order asked: the whole tensor-product rule where it is full, nothing where it is empty, and where it is cut points inside the domain (or on its boundary, with unit outward normals) whose weights add up to the measure of that part. "
  "What is returned depends on the request alone: not on earlier requests, other threads, or a user function or allocation that failed before.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every interleaving of requests by any number of threads, any history of domains, point counts and failures, every list of entities of every grid",
  "Tests compute single-threaded volumes and areas of a few domains with the whole grid as target.",
  [f"{CP}/impl_quadrature.cpp", f"{CP}/cut_quadrature.cpp", f"{CP}/quadrature.cpp", "cpp/include/qugar/cut_quadrature.hpp"],
  [("loops over targets by status", f"{CP}/impl_quadrature.cpp: create_quadrature and its facet and boundary counterparts"),
   ("cached Gauss rules", f"{CP}/impl_quadrature.cpp: gauss_01")],
  observe=["numbers of points, points, weights and normals per entity", "exceptions"],
  spec=QUAD("C21", 1500, 60000, "quadratures of chosen cells, facets and boundaries", "at least one cut cell or facet was judged"), note=QN)
P("C22", "Cut, full and empty cells and facets partition the grid, whoever asks",
  "Every cell of an implicit domain is exactly one of full, empty and cut, and every facet has at most one such status; lists, counts, flags, queries about chosen targets, and a domain built for some cells only all agree with each other. "
  "A cell or facet certainly inside, outside or clearly crossed by the boundary is classified so, neighbours agree on the facet they share, and neither other threads nor earlier failures change any answer.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "every implicit function and grid, every subset of target cells and facets, and every interleaving and history of constructions, queries and failures",
  "Tests compare counts of a handful of domains, built once by one thread.",
  [f"{CP}/impl_unfitted_domain.cpp", f"{CP}/unfitted_domain.cpp", f"{CP}/unfitted_domain_binary_part.cpp", f"{CP}/cart_grid_tp.cpp"],
  [("classification by interval arithmetic and recursive bisection", f"{CP}/impl_unfitted_domain.cpp: create_decomposition, classify_*"),
   ("status lists and lookups", f"{CP}/unfitted_domain.cpp: get_*_cells, get_*_facets, is_*")],
  observe=["cell and facet lists, counts and flags", "grid and sub-grid numbering"],
  spec=QUAD("C22", 1500, 60000, "whole and partial decompositions and queries", "at least one cut cell was classified"), note=QN)
P("C23", "Reparametrized meshes are well formed, inside the domain and reproducible",
  "A reparametrization of the requested cells has connectivity into its own points, no merged or missing points, uninverted cells that lie inside the domain and cover it (or, for levelsets, points on it) to the accuracy of its order, and a wirebasket made of its own edges. "
  "Merging points changes the numbering only, and neither threads nor earlier failures change the mesh.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "every domain, order and choice of cells, and every interleaving and history of requests and failures",
  "Tests write a few meshes and look at their sizes.",
  [f"{CP}/reparam_mesh.cpp", f"{CP}/impl_reparam.cpp", f"{CP}/impl_reparam_mesh.cpp", f"{CP}/impl_reparam_general.cpp", f"{CP}/lagrange_tp_utils.cpp"],
  [("merging of coincident points", f"{CP}/reparam_mesh.cpp: merge_coincident_points"), ("orientation and wirebasket", f"{CP}/impl_reparam_mesh.cpp")],
  observe=["points, connectivity and wirebasket"],
  spec=QUAD("C23", 1500, 60000, "reparametrizations with and without merging", "at least one cut cell was reparametrized"), note=QN)
P("C24", "A reparametrization file is complete and readable, or the caller is told",
  "When writing a reparametrization to VTK returns normally, the files named exist completely and describe exactly the mesh (points, cells in VTK's order, types, offsets), and the index refers to its parts wherever the directory is moved. "
  "When the disk is full or a write or open fails, the call throws, and no write fails without such a fault.",
  ["fault_sequences", "inputs", "histories", "schedules"],
  "a full disk or a failing open or write at any byte of any file, any mesh and path, and any interleaving of writers of different files",
  "Tests write to a healthy disk and look at nothing but the names.",
  [f"{CP}/reparam_mesh.cpp"], [("VTK writer", f"{CP}/reparam_mesh.cpp: write_VTK_file")],
  observe=["bytes of the files written", "exceptions"],
  spec=QUAD("C24", 1500, 60000, "VTK files of reparametrizations, some on a failing disk,", "a file was written from a domain with cut cells"), note=QN)

P("C25", "Every solve answers the problem as it is now, and nothing from earlier ones",
  "Each time a linear problem is solved it returns the function asked for, holding on owned and ghost dofs the solution of the system of its forms, with its boundary conditions lifted and imposed as they are now; "
  "each residual and Jacobian of a nonlinear problem is that of the forms, boundary values and iterate given, assembled and complete across ranks. "
  "Nothing of earlier solves, of steps that failed midway, or of other problems, living or deleted, changes a result, and the options given to a problem reach its solver and no other's.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of creating, solving, failing, changing boundary conditions and deleting problems, with any forms, boundary conditions on shared dofs, options and blocks",
  "No test of the repository that runs here solves a problem; the demos solve each problem once, without boundary values on dofs shared by ranks and without failures.",
  [PETSC], [("matrix and vector reset, lifting, ghost sum, prescribed values", f"{PETSC}: LinearProblem.solve, NonlinearProblem.F/J"), ("options under a prefix of the problem's own", f"{PETSC}: LinearProblem.__init__")],
  observe=["the solution function, residuals, Jacobians, options of the solver"],
  spec=FEM("C25", 3000, 100000, "creating, solving and deleting linear and nonlinear problems", "a solution, residual or Jacobian was compared with the reference"), note=FN)

P("C26", "A reparametrization becomes the same DOLFINx mesh on any number of ranks",
  "The DOLFINx mesh made from a reparametrization, solid or level set, or from its wirebasket, has each cell of the reparametrized domain exactly once over all ranks together, with its own points in DOLFINx's node order, "
  "of the degree and dimensions asked for, however many ranks make it, including ranks without cells and domains without a level set; made again, it is the same. Data for interpolating into a mesh cover all its local cells.",
  ["configurations", "inputs", "histories"],
  "every unfitted domain, degree, dimension and partition, on any number of ranks",
  "The tests that exist need FEniCSx and PyVista and run on one rank, where numbering over ranks and per rank coincide.",
  ["python/qugar/reparam/reparam.py"], [("node order, global node numbers, partition of the cells", "python/qugar/reparam/reparam.py: UnfDomainReparamMesh.create_mesh")],
  observe=["cells and points of the mesh made"],
  spec=FEM("C26", 6000, 200000, "turning reparametrizations into meshes together", "a mesh made from a reparametrization was compared with it"), note=FN)

# ------------------------------------------------------------------------ not addressed by this technique
P("N01", "Generated quadrature rules integrate to the accuracy of their order",
  "The points and weights QUGaR generates for cut cells, cut facets and unfitted boundaries integrate smooth functions over the implicit domain with an error that decreases at the rate of the requested number of points, without negative weights outside round-off.",
  ["inputs"], "every implicit function, cell, and number of points per direction",
  "Tests measure a few volumes and areas.", ["cpp/qugar/impl_quadrature.cpp", "cpp/qugar/impl_utils.cpp"], [("Algoim quadrature on each cell", "cpp/qugar/impl_quadrature.cpp: compute_quadrature_with_algoim")],
  observe=["points, weights and normals"], spec=None,
  na="Accuracy and its rate are a pure numerical function of the input, computed by the algoim headers, which are not installed here; coverage, placement and independence from history and threads are C21.")
P("N02", "Polynomial and tensor-product algebra is exact up to rounding",
  "Bezier and monomial polynomials convert, compose, restrict to facets, differentiate and rescale to equal polynomials; tensor indices and flat indices are inverse to each other.",
  ["inputs"], "every degree, dimension and coefficient", "Tests use random samples of low degrees.",
  ["cpp/qugar/bezier_tp.cpp", "cpp/qugar/monomials_tp.cpp", "cpp/qugar/tensor_index_tp.cpp", "python/qugar/mesh/tp_index.py"], [("Bezier algebra", "cpp/qugar/bezier_tp.cpp"), ("index bijections", "python/qugar/mesh/tp_index.py")],
  observe=["values and coefficients"], spec=None,
  na="Pure single-threaded algebra without state, I/O or failure modes; property-based testing or proof is the fitting technique, not simulation of schedules and faults.")
P("N03", "Implicit-function library gradients and Hessians match the functions",
  "For every function of the implicit library (primitives, TPMS, boolean and affine compositions) the gradient and Hessian are the derivatives of the value, and interval evaluations enclose the values.",
  ["inputs"], "every function, parameter and point", "Tests look at few functions and points.",
  ["cpp/qugar/primitive_funcs_lib.cpp", "cpp/qugar/tpms_lib.cpp", "cpp/qugar/impl_funcs_lib.cpp"], [("derivatives by template instantiation", "cpp/qugar/primitive_funcs_lib.cpp")],
  observe=["values, gradients and Hessians"], spec=None,
  na="Pure functions of a point; nothing a scheduler or fault injector controls can change their values.")
