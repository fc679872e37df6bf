"""Generates properties.jsonl and MANIFEST.json (run by hand; both are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "unidist/core/backends/"
M = B + "mpi/core/"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), na=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, state=state, na=na, note=note))


prop("S01", "get returns exactly the referenced values, in request order, every time",
     "With the MPI backend, retrieving refs returns for each requested ref the value that was put or that the task or "
     "actor method produced, in the order requested, with duplicates, as a list for a list and as a bare value for a bare "
     "ref. This holds whichever worker produced the value, whether or not some of the values were retrieved before, with and "
     "without the shared object store, and retrieving again returns the same values.",
     ["programs", "schedules", "inputs"],
     "all request lists over refs of every origin, all message/worker interleavings, all payload values",
     "Tests retrieve a few refs in one order on whatever interleaving the machine produces; they do not reach a duplicate id "
     "in flight, data already cached, or overtaking messages.",
     [M + "controller/api.py", M + "controller/common.py", M + "worker/request_store.py", M + "local_object_store.py"],
     [("get / request_worker_data", M + "controller/api.py"), ("RequestStore.process_get_request", M + "worker/request_store.py")],
     ["values returned by unidist.get"])

prop("S02", "wait returns a correct completed/remaining partition",
     "With the MPI backend, waiting in the main program for n of several distinct refs (1 <= n <= their number) returns exactly n completed refs and the "
     "others, each given ref exactly once, and blocks until n have completed. A ref is reported as completed only after its task "
     "finished - successfully or by raising - and every returned ref can be retrieved or waited for again.",
     ["programs", "schedules"],
     "all mixes of put/task/failing/coroutine/actor/dependent refs, every n, repeated waits, all interleavings",
     "Tests check wait for one or two refs on a single interleaving.",
     [M + "controller/api.py", M + "worker/request_store.py"],
     [("wait", M + "controller/api.py"), ("RequestStore.process_wait_request", M + "worker/request_store.py")],
     ["result of unidist.wait", "execution log of tasks"])

prop("S03", "Tasks see argument values in place of refs; outputs land in their refs",
     "With the MPI backend, a task sees, in place of every ref given to it as positional or keyword argument - directly or "
     "nested in lists, tuples and dicts - the value of that ref, and everything else exactly as given; containers of the caller stay "
     "unchanged. The k-th result of a task with several outputs is the value of the k-th ref returned at submission, for the main program "
     "and for every later task, whichever workers are involved.",
     ["programs", "inputs", "schedules"],
     "all nestings up to the bound, sources of every kind, placements on workers, interleavings",
     "Tests pass a ref or a flat list of refs to a task; nesting, keyword placement, data already present on a worker, multi-output "
     "consumers and schedules multiply beyond them.",
     [M + "controller/api.py", M + "controller/common.py", M + "worker/task_store.py", B + "common/utils.py", M + "common.py"],
     [("materialization of args", B + "common/utils.py"), ("push_data / submit", M + "controller/common.py"),
      ("TaskStore.execute_received_task", M + "worker/task_store.py")],
     ["arguments seen by user functions", "values of output refs"])

prop("S04", "Failures surface at get, every time, and do not break anything else",
     "With the MPI backend, when a task or actor method raises (directly, as a coroutine, or because a ref given as one of its "
     "arguments stands for a failed task), retrieving any of its outputs raises that exception, every time it is retrieved; an exception "
     "that cannot be transferred, and a result that cannot be transferred or does not provide the requested outputs, also "
     "surface as an exception. Tasks whose argument failed are not executed, and all other tasks, actors and workers continue to work.",
     ["programs", "schedules", "fault_sequences"],
     "all placements of failing tasks in small dependency graphs, kinds of failure, interleavings",
     "Tests raise from one task and check one get.",
     [M + "worker/task_store.py", M + "controller/api.py", M + "controller/common.py", M + "local_object_store.py"],
     [("execute_received_task error path", M + "worker/task_store.py"), ("get raises stored exceptions", M + "controller/api.py")],
     ["exceptions raised by unidist.get", "execution log"])

prop("S05", "Every submitted task runs exactly once and the program makes progress",
     "With the MPI backend, every task and actor method submitted by the main program is executed exactly once and its outputs become "
     "available, for every dependency graph mixing tasks, coroutines and actor methods and for every interleaving of messages and workers, however much the "
     "transport buffers. "
     "Retrieving or waiting never blocks forever while user code terminates.",
     ["programs", "schedules"],
     "dependency graphs up to the stated size, all interleavings up to the stated number of deviations from the default schedule",
     "Tests sample one interleaving; lost wake-ups need a message to arrive at a particular point of another task.",
     [M + "worker/loop.py", M + "worker/task_store.py", M + "worker/request_store.py", M + "controller/common.py"],
     [("worker event loop", M + "worker/loop.py"), ("pending tasks/actor tasks/requests", M + "worker/task_store.py")],
     ["completion of get/wait", "execution log"])

prop("S06", "Actors: isolated state, ordered calls, one home process",
     "With the MPI backend, each actor instance lives in one worker for its lifetime and its state reflects exactly the method calls made on it; "
     "calls made by one process whose arguments involve no results of other tasks are executed in the order of the calls. Different actors never "
     "share state, a handle passed to a task or another actor's method acts on the same instance, and a failed "
     "method leaves the actor usable.",
     ["programs", "schedules", "histories"],
     "call histories over two actors, handles travelling through tasks, creation/release of actors, interleavings",
     "Tests call a couple of methods of one actor.",
     [M + "controller/actor.py", M + "worker/loop.py", M + "worker/task_store.py", B + "mpi/actor.py"],
     [("Actor/ActorMethod", M + "controller/actor.py"), ("actor map and actor execution", M + "worker/task_store.py")],
     ["values returned by actor methods", "execution order"])

prop("S07", "Data is kept while reachable and eventually released afterwards",
     "With the MPI backend, a value is retrievable, and usable by tasks submitted by the main program, as long as the program holds a ref to it or such a task needing it "
     "has not finished, whatever refs are dropped, in whatever order and at whatever time. Once no ref and no unfinished task needs a value, "
     "continued use of all workers releases it in all processes, including its shared memory.",
     ["programs", "histories", "schedules"],
     "histories of creating, using and dropping refs, clean-up trigger points, interleavings",
     "Tests never drop refs at chosen points, and clean-up triggers only after thresholds of count and time.",
     [M + "controller/garbage_collector.py", M + "local_object_store.py", M + "controller/common.py", M + "worker/loop.py",
      M + "monitor/loop.py"],
     [("GarbageCollector.regular_cleanup", M + "controller/garbage_collector.py"), ("CLEANUP handling", M + "worker/loop.py")],
     ["values retrieved after clean-ups", "objects alive in the processes", "shared-memory reservations"])

prop("S08", "Shutdown terminates every process from any state",
     "With the MPI backend, shutting down makes every runtime process terminate, whichever tasks, actors and transfers are unfinished at that moment "
     "(as long as user code terminates), with and without the shared object store and on one or several hosts. No message is "
     "left that a process still waits for, and shutting down twice is harmless.",
     ["programs", "schedules", "configurations"],
     "programs that stop at any point of their work, all interleavings up to the bound, host layouts",
     "Tests shut down once, after everything has finished.",
     [M + "controller/api.py", M + "worker/loop.py", M + "monitor/loop.py"],
     [("shutdown", M + "controller/api.py"), ("CANCEL / READY_TO_SHUTDOWN / SHUTDOWN", M + "monitor/loop.py")],
     ["termination of all processes"])

prop("S09", "Tasks and actors are placed only on eligible workers, in rotation",
     "With the MPI backend, tasks run only on worker processes, never on a monitor, on the main program or on a worker reserved "
     "by a live actor, and never on the worker that submits them; consecutive tasks are spread over the eligible workers in rotation. A worker whose actor's handles were all dropped becomes eligible "
     "again, live actors never share a worker, and when every worker is reserved submitting is refused with an error.",
     ["histories", "configurations", "inputs"],
     "number of processes and hosts, histories of reserving, releasing and scheduling",
     "Tests run with a fixed number of workers and do not look at placement.",
     [M + "controller/common.py", M + "controller/actor.py"],
     [("RoundRobin", M + "controller/common.py")],
     ["worker on which user code runs"])

prop("M01", "Shared-memory reservations are disjoint, in bounds and never lost",
     "Within the shared object store, reservations that are live at the same time never overlap and never exceed the shared area or the "
     "bookkeeping table, for any sequence of requests and releases and any sizes. A request is refused only if no free range or slot is "
     "large enough, a refused request changes nothing, and when everything is released the whole area can be reserved again.",
     ["histories", "inputs"], "sequences of requests and releases with arbitrary sizes in [1, 2^48]",
     "Tests put a few objects of fixed sizes and never fragment the area.",
     [M + "monitor/shared_memory_manager.py"],
     [("FreeMemoryRange", M + "monitor/shared_memory_manager.py"), ("SharedMemoryManager", M + "monitor/shared_memory_manager.py")],
     ["reservations handed out"])

prop("M02", "The parallel memory copy copies exactly the requested bytes",
     "Copying n bytes with t threads writes every destination byte exactly once with the source byte at the same offset, and touches no other byte, for every n and every supported t. "
     "Whenever fewer bytes than threads, unaligned pointers or remainders are involved the result is the same as a plain copy.",
     ["inputs", "schedules"], "all lengths, addresses and thread counts in the bounds, all thread orders",
     "Tests copy a few arrays; wrong remainders or truncated sizes need particular sizes and alignments.",
     [M + "memory/memory.cpp", M + "memory/memory.h", M + "memory/_memory.pyx"],
     [("parallel_memcopy", M + "memory/memory.cpp")], ["destination memory"])

prop("M03", "Shared object store returns what was stored, without touching other objects",
     "An object written to the shared object store is read back equal by every process of the host, and by other hosts through transfer, "
     "for every size of its parts and every layout of reservations. Writing one object never modifies another live object, its bookkeeping or "
     "memory outside its reservation, and stale or foreign bookkeeping is never taken for the requested object.",
     ["inputs", "histories", "configurations"], "sizes of metadata and buffers, reservation positions, histories of objects in the same slots, hosts",
     "Tests store a few arrays on one host.",
     [M + "shared_object_store.py", M + "communication.py"],
     [("put/get of serialized parts", M + "shared_object_store.py"), ("service info", M + "shared_object_store.py")],
     ["values read back", "bytes of the shared segment"])

prop("M04", "Transfers deliver every byte and keep buffers alive until delivered",
     "Sending an object between processes delivers exactly its parts, of whatever size and number, also when a buffer is split into pieces "
     "because of a size limit, blocking or not; what arrives is what the data was when the call was made, whatever the program does to it afterwards. "
     "Buffers handed to the transport stay alive and unmodified until it reports completion, and are released then.",
     ["inputs", "schedules"], "numbers and sizes of buffers relative to the piece limit, order of completions",
     "Buffers above the transport's limit (2 GiB) are never transferred in tests; a dropped in-flight buffer needs a particular timing.",
     [M + "communication.py", M + "async_operations.py"],
     [("mpi_send_buffer / mpi_isend_buffer / mpi_recv_buffer", M + "communication.py"), ("AsyncOperations", M + "async_operations.py")],
     ["bytes received", "requests retained"])

prop("M05", "Serialized values round-trip and are snapshots",
     "With the MPI backend, a value stored by put or returned by a task is read back equal and of the same type - including numpy arrays of any memory layout, nested "
     "containers, functions and classes of the main program - however often it is transferred or read (bytearrays come back as bytes). A stored value is a "
     "snapshot: changes its producer makes to the original after put, or after the task or method returned, are not visible to anyone reading it in another process or through put, and a reader cannot change what is in the shared object store.",
     ["inputs", "programs"], "structures up to a bounded nesting with buffers of every size relative to thresholds",
     "Tests round-trip a handful of values and read them once.",
     [M + "serialization.py", M + "communication.py", M + "local_object_store.py"],
     [("ComplexDataSerializer", M + "serialization.py")], ["values read back"])

prop("M06", "Shared memory is reclaimed only when nobody uses it, and then it is",
     "Shared memory of an object is given to another object only after every process of the host has dropped its reads of it; until then the memory and its bookkeeping stay. "
     "A release that is not yet possible is retried, and it takes effect once the last reader is gone.",
     ["histories", "schedules"], "histories of puts, reads, releases by several processes and repeated clean-ups",
     "Tests never hold a value read from shared memory across clean-ups.",
     [M + "shared_object_store.py", M + "monitor/shared_memory_manager.py"],
     [("reference counters", M + "shared_object_store.py"), ("clear with pending cleanup", M + "monitor/shared_memory_manager.py")],
     ["values held by readers", "reservations"])

prop("C01", "Configuration values are validated, normalised and correctly prioritised",
     "A configuration parameter yields the value set by the program if there is one, otherwise the environment variable's value, otherwise its "
     "default; values are converted to the parameter's type and normalised, and an invalid value set by the program or the environment is rejected with "
     "an error, at the latest when the parameter is read, rather than silently used. Setting a parameter does not affect other parameters, and a refused "
     "put leaves the previous value.",
     ["inputs", "histories", "configurations"], "all strings up to the bound for every parameter type and histories of put/get",
     "Tests set a few values.",
     ["unidist/config/parameter.py", "unidist/config/backends/common/envvars.py", "unidist/config/backends/mpi/envvars.py"],
     [("Parameter.get/put, verify/cast per type", "unidist/config/parameter.py")], ["Parameter.get results"])

prop("C02", "Spawned workers see the configuration of the main program",
     "When the MPI backend spawns its processes, every parameter of this backend the program set or got from its environment has the same value in the spawned processes, "
     "whatever characters the values contain, and as many processes are started as the configured workers, monitors and hosts require. The spawned "
     "interpreters run with the interpreter options of the main program, except interactive mode.",
     ["configurations", "inputs"], "all parameter assignments and values up to the bound, host lists, numbers of CPUs",
     "Tests start with one fixed configuration.",
     [M + "controller/api.py", M + "common.py"], [("init: spawn arguments", M + "controller/api.py")],
     ["arguments of the spawned processes"])

prop("T01", "Process roles and cluster resources are consistent for every layout",
     "For every assignment of processes to hosts the MPI backend gives each process exactly one role - main program, monitor or worker - and "
     "all processes agree on it. The reported cluster resources count exactly the workers of each host.",
     ["configurations"], "numbers of processes and their distribution over hosts",
     "Tests run on one host with one layout.",
     [M + "communication.py", M + "controller/api.py"], [("MPIState / topology", M + "communication.py")],
     ["roles", "unidist.cluster_resources"])

prop("T02", "Shared-memory areas are sized within what the host offers",
     "The shared object store's data and bookkeeping areas together never exceed 95% of the shared memory a host offers, are at least large enough for one object and its "
     "bookkeeping, and have exactly the explicitly configured sizes, if any; sizes that cannot be met so are refused with an error and others are not. Every process of a host "
     "uses the areas of the host's monitor, which hands out exactly them.",
     ["configurations", "inputs"], "all memory sizes, explicit settings and process layouts in the bounds",
     "Tests run with one memory size.",
     [M + "shared_object_store.py"], [("area sizing", M + "shared_object_store.py")], ["sizes of allocated windows"])

prop("D01", "Refs identify data uniquely and consistently",
     "The identifiers held by refs that different puts and tasks produce, in whatever processes of the MPI backend, are different; copies of a ref - also after travelling to "
     "another process and back - hold equal identifiers with equal hashes and denote the same value. Comparing or hashing identifiers never depends on the process.",
     ["histories", "programs"], "sequences of creating, copying, pickling and comparing refs in several processes",
     "Tests do not compare refs across processes.",
     [B + "common/data_id.py", M + "common.py", M + "local_object_store.py"],
     [("DataID / MpiDataID", M + "common.py"), ("generate_data_id", M + "local_object_store.py")], ["equality and hash of refs", "values"])

prop("P01", "Sequential backend computes what plain Python would",
     "With the Python sequential backend, programs made of put, remote functions, actors, get and wait yield exactly the values and exceptions plain sequential "
     "execution yields: refs given as arguments are replaced by their values (refs inside containers stay refs that can be retrieved), every task and method runs "
     "exactly once, multiple outputs are split in order, failures are raised at get and passed on to dependent tasks instead of running them, actor state follows the "
     "calls made on that actor, and wait returns exactly the requested number of distinct refs as completed and the others as not completed.",
     ["programs", "inputs"], "programs up to the bound with symbolic payloads",
     "Tests run a few fixed programs.",
     [B + "pyseq/core/api.py", B + "pyseq/core/object_store.py", B + "pyseq/backend.py", B + "pyseq/actor.py", B + "pyseq/remote_function.py"],
     [("submit / get / wait", B + "pyseq/core/api.py")], ["results of get and wait", "execution log"])

prop("P02", "Multiprocessing backend computes what plain Python would, on any schedule",
     "With the Python multiprocessing backend, for every interleaving of the processes, every task runs exactly once on a worker, its outputs or its exception become "
     "available to get, wait and dependent tasks and then stay the same, and a task that cannot be transferred or whose result cannot be transferred fails instead of "
     "disappearing. Actor methods run in call order on the actor's own worker, which runs no ordinary task meanwhile, also those called before the actor was dropped; a "
     "dropped actor's worker becomes available again, and an actor or a task that finds no worker is refused. Wait returns exactly the requested number of completed refs and the rest, and "
     "neither get nor wait blocks forever while user code terminates.",
     ["programs", "schedules", "inputs"], "programs up to the bound over two to three workers, all interleavings up to the bound on interruptions",
     "Tests sample one interleaving.",
     [B + "pymp/core/api.py", B + "pymp/core/process_manager.py", B + "pymp/core/object_store.py", B + "pymp/core/actor.py"],
     [("ProcessManager / Worker.run", B + "pymp/core/process_manager.py"), ("ObjectStore", B + "pymp/core/object_store.py")],
     ["results of get and wait", "execution log"])

prop("K01", "Front end forwards calls faithfully to every backend",
     "The configured backend is the one that runs. Whatever backend it is, decorated functions, classes and methods forward exactly the given arguments to it once per "
     "call (refs given as arguments are unwrapped), with the options given for that call, or else those of the decorator; each of its results is wrapped in one ref, and "
     "put, get and wait wrap and unwrap refs, single or in lists, without loss, duplication or reordering, for any stored value including collections. Options given for one "
     "call do not leak into other calls; a decorator's num_returns that is not a non-negative integer, direct calls, and options the backend does not support are refused "
     "(keyword argument names reserved by unidist or by the backend library excepted).",
     ["inputs", "programs", "configurations"], "argument shapes, option values, numbers of outputs, call histories, backends",
     "Tests cover a few combinations per backend.",
     ["unidist/api.py", "unidist/core/base/*.py", B + "dask/*.py", B + "ray/*.py", B + "common/utils.py"],
     [("RemoteFunction/Actor wrappers", "unidist/core/base/remote_function.py"), ("ObjectRef wrapping", "unidist/core/base/backend.py")],
     ["calls reaching the backend", "results of get and wait"])

prop("N01", "Real transport performance and progress",
     "Transfers through the real MPI library complete in reasonable time and the asynchronous operations progress without starving user code.",
     ["schedules"], "all hardware timings", "needs real clusters",
     [M + "communication.py"], [("busy wait / backoff", M + "communication.py")], ["wall-clock time"],
     na="about the timing of the closed-box MPI library and of real hardware; there is no code of this repository that decides it and nothing "
        "to encode symbolically")

prop("N02", "Ray and Dask execute submitted tasks correctly",
     "With the Ray and Dask backends, tasks and actors execute with the same results as on the other backends.",
     ["programs", "schedules"], "all programs on real Ray and Dask clusters", "the behaviour belongs to those systems",
     [B + "ray/backend.py", B + "dask/backend.py"], [("thin wrappers", B + "ray/backend.py")], ["results"],
     na="execution is done by Ray and Dask themselves, which are not part of this repository (Ray is not even installed here); what the wrappers forward to them is "
        "decided by K01")

ASSUME = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(HERE, "vf", "checks", p["id"].lower() + ".py"))
        if p["na"] or not have:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} --tier quick",
            "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": ("symbolic execution of the C++ kernel's LLVM IR with z3" if p["id"] == "M02" else
                          "symbolic execution of the real Python code with z3 (inputs, schedules and faults symbolic)"),
            "level": "model_checking",
            "level_note": p["note"] or (
                "The real code of /repo is executed symbolically; z3 decides every branch and assertion for all values within the bounds reported in the evidence file. Trusted: the "
                "engine in vf/, the stand-ins listed in the evidence (transport, clock, memory sizes), z3."),
        })
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "hooks": {"guard": "UNIDIST_VERIF (unused: no hooks were needed)", "enable": "nothing to enable", "source_commits": []},
        "notes": "See DESIGN.md. KNOWN_FINDINGS lists repaired and open defects.",
    }, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed;", [x["property"] for x in na])


main()
