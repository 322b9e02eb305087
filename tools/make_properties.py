"""Regenerates /verif/properties.jsonl (the one place the property texts live)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    anchors = {"files": list(files), "mechanism": [{"name": mechanism, "where": ", ".join(files[:3])}]}
    if state:
        anchors["state"] = [{"name": s, "meaning": s, "where": files[0]} for s in state]
    anchors["hook_needed"] = None
    if observe:
        anchors["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why, "anchors": anchors})


# ------------------------------------------------------------------ claimed
prop("C01", "A directory index lists every patch exactly once after any history",
     "Once the data files of a directory have stopped changing, a single update makes the directory spool list each patch of each readable file exactly once and with the metadata a direct scan of that file reports, whatever came before: files arriving or growing before, between or in the middle of earlier updates, restarts, several spools and processes updating the same directory, any directory listing order, any (non-decreasing) clock. "
     "An update with nothing new changes nothing, so the real-time loop of repeatedly updating and handling only the new entries handles every patch exactly once.",
     ["histories", "schedules", "inputs"],
     "all finite histories of file arrivals (top level and nested), appends, touches, updates by any number of spool objects and processes, queries and restarts, with arrivals placed at any point inside a running update; arrivals carry a modification time not older than the moment they appear",
     "Tests run one or two fixed update sequences with real file times; the guarantee is about every arrival/update interleaving, including arrivals in the middle of a scan.",
     ["dascore/io/indexer.py", "dascore/utils/hdf5.py", "dascore/io/core.py", "dascore/clients/dirspool.py", "dascore/utils/misc.py"],
     "The update time is taken before the scan starts, files modified since the stored time are scanned, rows are merged into the index together with the new time.",
     ["index file", "stored last-update time", "query cache"], ["directory spool contents", "index metadata"])

prop("C02", "Index queries answer from current contents whatever was queried before",
     "A selection on a directory spool, by time range or attribute match, lists exactly the indexed patches that a direct filter over the complete contents selects: those overlapping the closed time range and matching the attributes. "
     "The answer does not depend on which queries were asked before, in which order or how many, and always includes everything this spool's latest update found, whatever other spool objects and processes did in between.",
     ["histories", "inputs"],
     "all sequences of range and attribute queries (open, closed, nested, disjoint, touching, repeated) interleaved with file arrivals and updates, on up to hundreds of indexed patches",
     "The index keeps a small rotating query cache and a coarse pre-filter; wrong reuse shows only for particular query sequences.",
     ["dascore/io/indexer.py", "dascore/utils/hdf5.py", "dascore/utils/pd.py", "dascore/clients/dirspool.py"],
     "Query results are cached by time range and reused for contained ranges, then trimmed; the on-disk query is widened by a buffer.",
     ["query cache rows", "index table"], ["directory spool contents and length"])

prop("C03", "A crash or I/O error during an index update never loses the directory",
     "If the process dies, or a write to the index fails, at any point of creating or updating a directory index, then the next update in a new process succeeds and yields the complete contents, each patch once. "
     "Until then the directory is never reported with wrong or duplicated entries, and data files are never modified.",
     ["crash_points", "fault_sequences", "histories"],
     "all crash points at system-call granularity (including torn writes) and single or repeated write, open, truncate, close and rename errors (EIO, ENOSPC, EACCES) during index creation and update, followed by restart",
     "No test can kill the process between two writes of the index file; the failing window is a few system calls wide.",
     ["dascore/io/indexer.py", "dascore/utils/hdf5.py"],
     "The index is written next to the data and replaced as a whole, with the update time stored in the same file.",
     ["index file", "data directory"], ["next update", "directory spool contents", "data file bytes"])

prop("C04", "One unreadable file never affects the other files of a scan",
     "Scanning or indexing a directory reports every readable patch even if other files there are empty, truncated, filled with garbage, of unknown format, unreadable, failing with I/O errors while being read, or disappear while the scan is running. "
     "The damaged file itself is skipped without an exception, never misreported as other data, and is picked up by a later update once it has been replaced by a repaired file (one with a new modification time).",
     ["fault_sequences", "inputs", "histories"],
     "all mixes of damaged and good files, all truncation lengths, read errors at any point of reading a file, deletion at any point of the scan, repair and later update",
     "Tests use a few fixed bad files; damage position and the moment of disappearing decide which code path raises.",
     ["dascore/io/core.py", "dascore/utils/misc.py", "dascore/utils/io.py", "dascore/io/indexer.py"],
     "Format detection and scanning of each file are individually guarded, the failure is turned into a warning and the scan goes on.",
     ["open file handles"], ["scan results", "directory spool contents"])

prop("C05", "File-backed spools give the same patches as in-memory spools",
     "Any sequence of selecting, sorting, slicing, array indexing, splitting, chunking and merging that works on an in-memory spool gives, on a directory or single-file spool, the same patches in data, coordinates and attributes as on an in-memory spool holding the same patches, no matter when the patches are actually loaded. "
     "If reading a file fails while a patch is being loaded the access raises an error; it never returns wrong, partial or shortened data, and the same access succeeds once the fault is gone.",
     ["inputs", "histories", "fault_sequences"],
     "all operation sequences over mixtures of single- and multi-patch files (range selections on dimensions that every patch has), loaded in any order and any number of times, with read faults (EIO, short reads, file temporarily missing) placed anywhere inside a load",
     "The equivalence is over arbitrary compositions of lazy operations and over fault positions inside a load, not a list of examples.",
     ["dascore/core/spool.py", "dascore/clients/dirspool.py", "dascore/clients/filespool.py", "dascore/utils/chunk.py", "dascore/utils/pd.py", "dascore/io/core.py"],
     "Operations only rewrite a table of instructions; files are read and trimmed according to it at access time.",
     ["instruction table", "lazy caches"], ["patches obtained by index and iteration", "contents", "length"])

prop("C06", "Acknowledged writes are what every later read and scan returns",
     "After any sequence of successful writes to files of a format the library can both write and read, reading or scanning a file returns exactly the patches last written there: data, coordinates and attributes, each once, with patches of a later write to an appendable (DASDAE) file added, replacing a stored patch of the same network, station, tag, start and end second, and other formats replacing the file. "
     "Scan and read agree on every file, whether or not the file carries an internal index, in the writing process and in a new one.",
     ["histories", "inputs"],
     "all sequences of write, append, rewrite and index operations over several files and formats, by path or by open handle, with restarts in between and any patch shapes, data types and coordinate kinds the format supports",
     "Tests write once and read back once; errors depend on what the file held before and on the process's cached handles and metadata.",
     ["dascore/io/dasdae/core.py", "dascore/io/dasdae/utils.py", "dascore/io/pickle/core.py", "dascore/io/wav/core.py", "dascore/io/rsf/core.py", "dascore/io/core.py", "dascore/utils/hdf5.py", "dascore/utils/io.py"],
     "Patches are stored under names derived from their identity, existing nodes of that name are replaced.",
     ["file contents", "in-file index"], ["read", "scan", "file spool"])

prop("C07", "A failed or interrupted write is reported and harms nothing else",
     "If writing a patch or spool fails, through a full disk, an I/O error, a short write or a bad input, the caller gets an exception: no write returns normally unless the complete data can afterwards be read back by a new process. "
     "Other files are untouched, the process stays usable, a retry once the fault is gone succeeds (for appendable DASDAE files after restoring the damaged file), and patches stored earlier in a DASDAE file can still be read after a rejected input.",
     ["fault_sequences", "crash_points", "histories"],
     "all single and repeated write, open, truncate, sync and close faults at any position of a write, for each writable format, followed by retry in the same and in a new process",
     "The failing system call can be any of dozens inside one write; errors are easily swallowed in cleanup code.",
     ["dascore/io/core.py", "dascore/utils/hdf5.py", "dascore/utils/io.py", "dascore/io/dasdae/core.py", "dascore/io/pickle/core.py"],
     "Writers open the target through managed handles that are closed, and whose close errors propagate, when the write ends or fails.",
     ["open handles", "target file"], ["exception or return of write", "reads in a new process"])

prop("C08", "No file stays open after an operation ends, however it ends",
     "After a read, scan, format detection, write, index update or spool access returns or raises, no file it opened is still open, however it ended. "
     "Repeating an operation any number of times never makes open files accumulate, and a file can be written, replaced or deleted right after any operation on it.",
     ["fault_sequences", "inputs", "histories"],
     "all operations, all formats, with damaged files and I/O errors at any point of the operation",
     "Leaks show only when a particular step fails and only as exhaustion or lock conflicts much later.",
     ["dascore/io/core.py", "dascore/utils/io.py", "dascore/utils/hdf5.py"],
     "Resource managers own every handle opened for an operation and close it on exit.",
     ["open file handles"], ["descriptors open after the call"])

prop("C09", "Format detection depends only on the file",
     "The format and version detected for a file, and what scan and read return for it, depend only on the file's bytes and name. "
     "They do not depend on which files were opened before, on the order format plugins are loaded or listed, on hash randomisation, or on the order a directory is listed; a plugin registered late is tried like one registered early. "
     "(If several formats accept one file, opening it alone still gives the same format in every process; only a directory scan may then prefer the format of the file before it.)",
     ["histories", "schedules", "inputs"],
     "all histories of earlier detections over mixtures of formats, versions and unreadable files, all plugin loading orders and interpreter hash seeds",
     "Detection remembers hints from earlier files and iterates over sets; tests fix both.",
     ["dascore/io/core.py", "dascore/io/dasdae/core.py"],
     "Formats matching the extension and recently used formats are tried first, the rest in registry order; each decides from file content.",
     ["plugin registry", "format hints"], ["get_format", "scan", "read"])

prop("C10", "Concurrent use from several threads gives the serial results",
     "When several threads of one process read, scan, detect formats, query, select, chunk, iterate or process patches at the same time, sharing spools and patches or not, and including the very first use of the library, each call returns exactly what it returns when the calls are made one after another. "
     "No call fails because of another thread.",
     ["schedules", "inputs"],
     "all interleavings of the library's own statements over 2-4 threads, with shared and private directory, file and memory spools and patches and a cold or warm plugin registry",
     "A race needs one particular interleaving of a few statements; real threads almost never produce it and cannot repeat it.",
     ["dascore/io/core.py", "dascore/core/spool.py", "dascore/clients/dirspool.py", "dascore/io/indexer.py", "dascore/utils/misc.py", "dascore/utils/namespace.py"],
     "Shared state is limited to lazily filled caches and the plugin registry, which are filled with idempotent values.",
     ["lazy caches", "plugin registry", "query cache"], ["return values of every call"])

prop("C11", "Parallel map equals the serial map for any executor",
     "Mapping a function over a spool through any executor gives the list that the serial map gives: one result per patch, in spool order, each patch handled exactly once, for any number of patches, group size, number of workers and completion order. "
     "If the function raises for a patch, the error reaches the caller.",
     ["schedules", "inputs", "fault_sequences"],
     "all spool kinds and lengths (including empty and shorter than the worker count), group sizes, worker counts and execution orders of an executor's tasks, with work units serialised or shared, and failing functions",
     "Group size and worker count interact with the spool length; tests use one host's processor count.",
     ["dascore/utils/misc.py", "dascore/core/spool.py"],
     "The spool is split into contiguous groups that are mapped by the executor and flattened in order.",
     ["split spools"], ["returned list", "calls seen by the function"])

prop("C12", "Readers of an index ride out a concurrent update",
     "While another process updates the index of a directory, every query either returns the complete contents as of some moment of the update (the old or the new set of entries, never a mixture, duplicates or damaged rows), or waits and retries within a bounded time. "
     "Temporary failures to open or read the index are retried and, once they stop within the documented retry time, the query succeeds; a lasting failure is reported as an error, not as an empty result.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings, at system-call granularity, of index readers with one or more updating processes, and transient read faults of any length around the retry limit",
     "Two real processes cannot be stepped one system call at a time in a test.",
     ["dascore/utils/hdf5.py", "dascore/io/indexer.py"],
     "Index reads are retried a bounded number of times with a pause; updates replace the index file as a whole.",
     ["index file"], ["query results", "simulated waiting time"])

prop("C13", "Custom index locations are remembered whatever else happens",
     "After a directory has been opened once with an index in another location, every later spool on that directory, in any process, uses that index (unless the directory holds an index of its own), and no other directory's recorded location is lost, no matter how many processes record locations concurrently or die while doing so. "
     "If the record is unreadable the library still works and starts a new record.",
     ["schedules", "crash_points", "histories"],
     "all interleavings at system-call granularity of processes registering locations, crashes and write faults at any point of saving the record, and arbitrary damage to the saved record",
     "The record is one file shared by all processes of a user; losing entries needs two processes inside the same few system calls.",
     ["dascore/io/indexer.py"],
     "The map from data directory to index file is re-read, merged and replaced as a whole when an entry is added.",
     ["index location record"], ["which index a new spool uses"])

prop("C14", "Patches and spools never change once created",
     "No operation, whether it succeeds, raises, or is interrupted at an arbitrary point, changes a patch or spool that already exists: its data, coordinates, attributes, order and contents stay as they were, and so do the arrays, dictionaries and tables passed in by the caller. "
     "Changing arrays or tables handed out as results does not change what other patches or spools return.",
     ["histories", "schedules", "inputs"],
     "all sequences of patch, coordinate and spool operations over a growing pool of shared values, with exceptions and interrupts at arbitrary points",
     "Aliasing breaks a value only through a later operation on another value that shares memory with it.",
     ["dascore/core/patch.py", "dascore/core/coordmanager.py", "dascore/core/coords.py", "dascore/core/attrs.py", "dascore/core/spool.py", "dascore/proc", "dascore/utils/mapping.py"],
     "Patches hold immutable coordinate managers, attribute models and arrays that operations copy before changing.",
     ["shared arrays", "caches on patches, coordinates and spools"], ["every live value after every step"])

prop("C15", "Results never depend on what the process did before",
     "An operation gives the same result in a fresh process and after any earlier use of the library: other operations, failed or interrupted calls, other units, other files at the same path, plugin or namespace registration, cleared or filled caches. ",
     ["histories", "inputs"],
     "all histories of library calls followed by a probe call, compared with the probe alone in a fresh process",
     "Module-level caches and registries make a wrong result depend on an unrelated earlier call; tests fix the history.",
     ["dascore/utils/misc.py", "dascore/units.py", "dascore/io/core.py", "dascore/io/xml_binary/utils.py", "dascore/utils/namespace.py", "dascore/utils/patch.py"],
     "Module caches hold values that are functions of their key only, and keys include everything the value depends on.",
     ["module-level caches", "registries"], ["return value of the probe"])

prop("C16", "An interrupted operation leaves the library fully usable",
     "If an operation is interrupted (keyboard interrupt, timeout or cancellation raised inside it) at any point, then retrying the same operation, and any other operation, gives the result it would give without the interruption, in the same process and in a new one. "
     "An interrupted index update or file write never makes the directory or other files unreadable.",
     ["crash_points", "histories"],
     "all statement-level interruption points of reads, scans, updates, queries, loads, maps and processing calls",
     "Partially filled caches and half-registered plugins appear only if the interrupt lands between two particular statements.",
     ["dascore/io/core.py", "dascore/core/spool.py", "dascore/io/indexer.py", "dascore/utils/misc.py", "dascore/utils/hdf5.py", "dascore/utils/io.py"],
     "Caches are filled with complete values only and handles are released by context managers.",
     ["lazy caches", "plugin registry", "open handles", "index file"], ["results after the interrupt"])

# ----------------------------------------------- stated, but not simulation targets
def na(id, title, statement, files, mechanism):
    prop(id, title, statement, ["inputs"], "all inputs", "Input-space property; tests sample a handful of inputs.", files, mechanism)


na("N01", "Chunking and merging neither lose nor duplicate samples",
   "Chunking a spool along a dimension and merging contiguous patches keeps every sample exactly once at its coordinate (overlaps and dropped partial chunks as documented), for all segment layouts.",
   ["dascore/utils/chunk.py", "dascore/utils/patch.py", "dascore/core/spool.py"], "Interval arithmetic on coordinate ranges.")
na("N02", "Selection returns exactly the samples in the requested range",
   "Selecting by value, sample index or relative value along any coordinate returns exactly the samples inside the closed range, in order, and all associated coordinates stay aligned with the data.",
   ["dascore/core/coords.py", "dascore/core/coordmanager.py", "dascore/proc/coords.py"], "Binary search or boolean masks on coordinates.")
na("N03", "Unit conversion preserves physical meaning",
   "Converting units of data, coordinates or query values never changes the physical quantity, and round trips within floating point error; incompatible units are refused.",
   ["dascore/units.py", "dascore/proc/units.py"], "Pint quantities applied to arrays.")
na("N04", "Time conversions are exact to the nanosecond and NaT-safe",
   "Conversions between floats, strings, datetimes and timedeltas are mutually inverse to the documented precision and map missing values to missing values.",
   ["dascore/utils/time.py"], "Dispatch on type and integer nanoseconds.")
na("N05", "Transforms and their inverses recover the data",
   "Forward then inverse transforms (Fourier, short-time Fourier, Hilbert family, integration/differentiation where defined) recover data and coordinates to floating point accuracy.",
   ["dascore/transform"], "Numerical transforms with stored coordinates.")
na("N06", "Filters and resampling keep data and coordinates consistent",
   "Filtering, decimation, resampling, interpolation and aggregation give the mathematically defined result, with coordinates matching the output samples.",
   ["dascore/proc"], "Numerical kernels with coordinate updates.")
na("N07", "Arithmetic between patches aligns coordinates correctly",
   "Patch arithmetic aligns, broadcasts and combines units exactly as for aligned arrays, and refuses incompatible coordinates.",
   ["dascore/utils/patch.py", "dascore/utils/array.py", "dascore/proc/basic.py"], "Coordinate intersection and ufunc dispatch.")
na("N08", "Conversions to and from other libraries are faithful",
   "Converting patches to xarray, obspy or tables and back preserves data, coordinates and metadata.",
   ["dascore/utils/io.py", "dascore/io"], "Field-by-field conversion.")
na("N09", "Vendor file formats are decoded as specified",
   "Reading a file of a supported vendor format yields the samples, coordinates and metadata the format specification defines.",
   ["dascore/io"], "Per-format decoders.")

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
