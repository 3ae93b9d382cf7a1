SQ = ["pkg/squash/squash.go", "pkg/squash/vfs.go", "pkg/squash/vfs_fs.go", "pkg/squash/readlayer.go", "cmd_layer_squash.go"]
SAMPLING = "Sampled, not exhaustive: "

prop("C01", "A squashed layer can replace the layers it was made from",
     "Applying the one layer that squashing a list of layers produces gives exactly the same filesystem (paths, types, contents, metadata, link targets, what is hidden of the layers below) as applying the listed layers one after the other, whatever layers lie below. Explicit and opaque whiteouts, directories replaced by files and back, hard links, and paths that go through symlinks all keep the meaning they have in the separate layers.",
     ["inputs", "histories"], "every list of layers and every stack of lower layers (that has no symlink an upper path goes through)",
     "The table in squash_test.go has 11 stacks and never applies the result to lower layers; what a squashed layer hides or resurrects below only shows over some lower layer and some order of replacing and whiting out.",
     SQ, [("in-memory filesystem with whiteout markers as files; implicit whiteouts made explicit", "pkg/squash/vfs.go"), ("whiteouts of a layer are applied before its files", "pkg/squash/squash.go")],
     "squashchk", "PBT (rapid): model-based, independent OCI-layer reference model over generated stacks and lower layers",
     SAMPLING + "small path alphabets, up to 5 layers of up to 7 entries, three kinds of lower layers per case including an adversarial one derived from the stack. Trusts archive/tar and the reference model.",
     observe=["the tar stream of the squashed layer"])

prop("C02", "Squashed layers have one canonical, deterministic form",
     "A squashed layer lists every path at most once, under its clean relative name (directories with a trailing slash), a directory before its contents, each directory's whiteout markers first and everything else in byte order. The same input layers always give the same bytes, the order of non-interacting entries within a layer does not matter, and squashing a squashed layer again changes none of its files. A layer that names a path outside of the image root is refused.",
     ["inputs"], "every list of layers, every order of independent entries, every unclean spelling of a path",
     "squash_test.go compares 11 outputs; determinism and canonical form are claims about all inputs (Go's map order makes a lapse show only sometimes).",
     SQ, [("sorted depth-first output", "pkg/squash/vfs.go: writing out"), ("path cleaning and refusal of outside paths", "pkg/squash/readlayer.go")],
     "squashchk", "PBT (rapid): validity predicate, repetition and permutation (metamorphic) relations",
     SAMPLING + "small alphabets; each case is squashed several times to expose map-order dependence.")

prop("C03", "The filesystem view of layers shows what the layers contain",
     "Loading layers as a read-only filesystem shows exactly the flattened content: opening follows symlinks (relative, absolute, above the root, chained, up again from where another leads), stat, reading and directory listing (whole or in pages) agree with the layers, hidden files are not listed, missing files are reported as not existing, and omitted content is an error and never wrong data. This holds for any number of goroutines using the filesystem at once.",
     ["inputs", "schedules", "histories"], "every list of layers, every path, every page and buffer size, every interleaving of readers",
     "vfs_test.go runs one hand-written layer through fstest once, single-threaded.",
     SQ, [("io/fs adapter over the in-memory filesystem", "pkg/squash/vfs_fs.go"), ("symlink resolution", "pkg/squash/vfs.go")],
     "squashchk", "PBT (rapid) against the reference model; race-detector build with 4 concurrent readers",
     SAMPLING + "schedules are those the Go scheduler happens to produce, judged by the race detector (which sees unordered accesses even when nothing goes wrong).", race=True)

prop("C04", "Any layer is processed or refused; nothing crashes, hangs or is swallowed",
     "Whatever bytes a layer holds - symlink loops, symlinks through themselves or nested exponentially, odd whiteout names, unknown entry types, damaged or cut-off archives - squashing or loading it ends promptly with a result or an error, never with a crash or endless work. A result always has unique paths inside of the root, and an error while opening or reading a layer is always reported; whatever was opened is closed.",
     ["inputs", "fault_sequences"], "every byte sequence as a layer, every symlink graph, every point at which reading fails",
     "No test has a symlink loop through a directory, a damaged archive or a failing reader.",
     SQ, [("loop detection while resolving symlinks", "pkg/squash/vfs.go"), ("errors of the tar reader", "pkg/squash/readlayer.go")],
     "squashchk", "PBT (rapid): structured fuzzing of symlink graphs, archive mutation, injected read faults",
     SAMPLING + "a hang is a case that takes over 60 s (ordinary cases take under a millisecond), confirmed by running it again in a fresh process.")

DIR = ["pkg/dir/dir.go", "cmd_layer_dir.go", "pkg/fsutil/fileref.go"]

prop("C05", "A directory becomes a layer with exactly its files",
     "The layer made from a directory has every file below the directory once, after its parent directory, with the file's type, contents, permission bits (including set-id and sticky), numeric and symbolic owner (as overridden by chown; a negative id or empty name keeps the file's own), link target and hard-link identity, and its modification time, but no later than the clamp time; nothing is left out or added, and the archive is well-formed for any reader (entries other than regular files have no size, header checksums are right, the archive is terminated). The prefix's directories come first with the prefix's ownership and mode (0755 by default). The result does not depend on the order in which the files were made, on access times, or on how the directory's path is spelled. Prefixes outside of the root and things that are not directories are refused.",
     ["inputs"], "every directory tree, prefix, ownership override and clamp time",
     "pkg/dir has no tests.",
     DIR, [("directory walk, hard-link detection", "pkg/dir/dir.go")],
     "dirchk", "PBT (rapid): generated trees on disk, compared with an expected filesystem derived from the generated tree",
     SAMPLING + "trees of up to 10 files in a scratch directory; devices and sockets are not generated; sub-second times may be rounded either way.", cli=True)

prop("C06", "Same inputs, same bytes: surroundings and build time do not matter",
     "Building again from the same inputs gives the same bytes, for each step of a pipeline of layer dir, layer wheel (with the real byte-compiler), layer gobuild, layer squash and image build, wherever the inputs lie, in whatever order they were made and last read, and whatever the time zone, locale, umask, working directory, temporary directory, home, user, hash seed, number of processors and wall-clock time. Times in layers of directories and Go programs are the files' own but no later than SOURCE_DATE_EPOCH (if that is a decimal number; otherwise no later than now); layers of wheels, squashed layers and images do not depend on it at all. Layers that one program makes at the same time do not influence each other.",
     ["inputs", "schedules"], "every set of inputs and every surroundings",
     "No test runs anything twice.",
     ["pkg/reproducible/source_date_epoch.go", "cmd_layer_dir.go", "cmd_layer_wheel.go", "cmd_layer_gobuild.go", "cmd_layer_squash.go", "cmd_image_build.go", "pkg/dir/dir.go", "pkg/fsutil", "pkg/python/py_compile.go"],
     [("SOURCE_DATE_EPOCH", "pkg/reproducible: Now"), ("sorted, clamped layers", "pkg/fsutil: LayerFromFileReferences, pkg/dir: LayerFromDir"), ("compiler environment", "pkg/python/py_compile.go: ExternalCompiler")],
     "clichk", "PBT (rapid): metamorphic - the same pipeline in two sandboxes with different surroundings must give equal bytes; independent model of the clamped times; concurrent library calls under the race detector",
     SAMPLING + "owners of the files are the same in both runs; the compiler is Python 3.12, go is a stand-in.", race=True, cli=True)

prop("C07", "A list of file references becomes the layer with those files",
     "The layer made from a list of file references has one entry for each reference, in byte order of their path components (directory by directory), with the reference's type, mode, size, contents, owner and time (clamped), whatever order the references are listed in; the same references give the same bytes. Files are read to the end, every opened file is closed again, and an error while opening, reading or closing a file, or a file that is longer or shorter than it said, fails the whole operation.",
     ["inputs", "fault_sequences"], "every list of file references, every order, every point of failure",
     "fsutil has no tests of its own.",
     ["pkg/fsutil/fileref.go", "pkg/fsutil/fileref_util.go"], [("sorting, clamping and writing of the references", "pkg/fsutil/fileref.go")],
     "dirchk", "PBT (rapid): model comparison, permutation relation and injected open/read/close faults",
     SAMPLING + "up to 12 references.")

prop("C08", "Layers are equal except for times exactly if only times differ",
     "Comparing two layers while ignoring timestamps gives 'equal' if they have the same entries in the same order with the same names, types, modes, owners, links, device numbers, extended attributes and contents, whatever their modification, access and change times are and however those are encoded; it gives 'different' for any other difference, however small and wherever it is. A layer that cannot be opened, read to its end or closed is an error and never 'equal', and nothing is left open.",
     ["inputs", "fault_sequences"], "every pair of layers, every point of failure",
     "fsutil has no tests of its own; a comparison that is too lax or too strict in one field shows only for layers that differ just there.",
     ["pkg/fsutil/diff.go"], [("header and content comparison", "pkg/fsutil/diff.go")],
     "dirchk", "PBT (rapid): metamorphic (change only times / change exactly one other thing) and injected faults",
     SAMPLING + "up to 6 entries, file sizes around the comparison's chunk size.")

prop("C09", "gobuild writes what was built and leaves an unchanged layer file alone",
     "`layer gobuild` runs `go build -trimpath` for linux/amd64 on exactly the given packages (which are never taken for flags), with the rest of the environment passed through and go's own output kept out of stdout, and gives a layer with exactly the built binaries in usr/local/bin, with their modes and contents, owned by root, no later than SOURCE_DATE_EPOCH. In any sequence of builds, --output=FILE holds the last successful build's layer, a build that changes nothing but times does not touch the file at all, every other change replaces it, a failed build exits non-zero with the file as it was, and no temporary files stay behind.",
     ["histories", "inputs", "fault_sequences"], "every sequence of builds, changes of the binaries, failures of go, and environments",
     "gobuild and the command have no tests.",
     ["cmd_layer_gobuild.go", "pkg/gobuild/gobuild.go", "pkg/fsutil/diff.go", "pkg/dir/dir.go"],
     [("comparison with the existing layer file", "cmd_layer_gobuild.go"), ("running go in a temporary directory", "pkg/gobuild/gobuild.go")],
     "clichk", "PBT (rapid): stateful, generated build histories with a stand-in go command against a model of the output file",
     SAMPLING + "the go command is a script that copies prepared files; histories of up to 7 builds; an existing output file that is damaged is not generated.", cli=True)

prop("C10", "Images hold the base's and the given layers in order, config as asked",
     "`image build` gives an image whose layers are the base image's layers followed by the given ones, each bit for bit and in the order given, with matching diff IDs and history; Env, Entrypoint, Cmd and WorkingDir are those of the base as changed by the flags and every other part of the base's configuration stays. The tag is the one given. The result is the same bytes each time, and is itself usable as a base. `image build` and `layer squash` accept any mixture of plain and gzip-compressed layers and of regular files and pipes, with the same result.",
     ["inputs"], "every base image, list of layers, combination of flags and form of the inputs",
     "The commands have no tests.",
     ["cmd_image_build.go", "pkg/fsutil/open.go", "cmd_layer_squash.go", "pkg/fsutil/write.go"],
     [("configuration flags", "cmd_image_build.go: configFlags"), ("input files that can be read only once", "pkg/fsutil/open.go")],
     "clichk", "PBT (rapid): the built binary on generated images and layers; result parsed independently and compared with a model; differential files vs pipes",
     SAMPLING + "up to 3 base layers and 4 given ones.", cli=True)

prop("C11", "Commands fail loudly: exit status, message, nothing on stdout, no crash",
     "An invocation that cannot do what it was asked exits with status 2 if it was called wrongly (unknown flag or subcommand, wrong number of arguments, flag value that does not parse) and with status 1 if something went wrong (missing, unreadable, cut-off or damaged inputs, bad platform file or tag, failing helper commands, output that cannot be written). It says why on stderr (for a wrong call: which command, what is wrong with it, and where help is; the help itself if a subcommand is missing), writes nothing to stdout, does not crash, and leaves no temporary files. --help succeeds. Writing a layer out gives exactly its uncompressed bytes, or an error if opening, reading, closing or writing fails.",
     ["inputs", "fault_sequences"], "every command, every kind of misuse and broken input, at every position among good inputs",
     "No test runs the commands.",
     ["main.go", "pkg/cliutil/cobra.go", "cmd_image_build.go", "cmd_layer_squash.go", "cmd_layer_dir.go", "cmd_layer_gobuild.go", "cmd_layer_wheel.go", "cmd_python_inspect.go", "cmd_python_getwheel.go", "pkg/fsutil/open.go", "pkg/fsutil/write.go"],
     [("usage errors", "pkg/cliutil/cobra.go: FlagErrorFunc"), ("runtime errors", "main.go")],
     "clichk", "PBT (rapid): the built binary on generated broken invocations and damaged files (fault injection)",
     SAMPLING + "damage to gzip data, tar headers, image parts, YAML and helper commands of the kinds listed.", cli=True)

WHL = ["pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/python/pypa/bdist/misc.go", "pkg/python/pypa/bdist/ioutil.go", "pkg/python/pypa/bdist/hack.go"]

prop("C12", "A wheel is installed only if every file matches RECORD",
     "A wheel is refused, before any file of it reaches the byte-compiler or a post-install hook, unless RECORD lists every file of the archive (apart from RECORD's own signatures) and nothing else, each with its right size and its right hash by sha256, sha384 or sha512, in rows of three columns; RECORD itself needs neither hash nor size. Attributes that make a file look like a directory, second files of the same name and second rows do not get anything past that check. Wheels without exactly one .dist-info directory, without RECORD or WHEEL, of a newer major Wheel-Version, or with data of an unknown kind are refused too. Intact wheels are not refused, whatever the order, quoting and spelling of the rows; flipping any bits of the file never changes what gets installed unnoticed.",
     ["inputs", "fault_sequences"], "every wheel and every way in which its contents and RECORD can disagree; every flipped bit",
     "The tests that install wheels need the network and docker; no test has a damaged wheel.",
     WHL, [("checking all files against RECORD", "pkg/python/pypa/bdist/binary_distribution_format.go: integrityCheck"), ("the order of check, compile, hook", "InstallWheel")],
     "whlchk", "PBT (rapid): generated wheels with one injected disagreement each (24 kinds), random bit flips against the recorded contents, intact wheels as positive controls",
     SAMPLING + "wheels of up to a dozen members; hash collisions are ignored.")

prop("C13", "Wheel files land where the scheme says, with the right metadata",
     "Installing a wheel gives a layer with exactly the files of the archive (purelib or platlib by Root-Is-Purelib; each kind of .data in its directory of the scheme), what the byte-compiler makes of every .py file, and what the hooks add, each once and after its parent directories. Bytes are unchanged but for scripts' interpreter lines; the mode is 0755 for directories and for files that are executable regular files by their Unix attributes, else 0644; the owner is the platform's; times are the archive's (or the given one) but no later than the given or derived latest time, which is just after the archive's last. Hooks run once, in order, after compilation, on a map of every installed file by its path; a failure of a hook or of the compiler and an invalid platform are reported. Scheme paths mean the same in any spelling, and a wheel from a pipe the same as from a file. Nothing is left open.",
     ["inputs"], "every well-formed wheel, install scheme, platform and pair of times",
     "pip_test.go compares two real wheels with pip, and needs the network and docker.",
     WHL + ["pkg/python/platform.go", "pkg/fsutil/fileref.go"], [("unpack and spread", "pkg/python/pypa/bdist/binary_distribution_format.go: installToVFS"), ("metadata", "pkg/python/pypa/bdist/ioutil.go: create")],
     "whlchk", "PBT (rapid): generated wheels and platforms against an independent model of the wheel specification; a recording stand-in for the compiler",
     SAMPLING + "members that collide once installed are left out.")

prop("C14", "Script placeholders become the right interpreter, nothing else changes",
     "A file in a wheel's .data/scripts directory that starts with exactly #!pythonw or #!python starts with the platform's graphical or console interpreter instead once installed (each standing in for the other if only one is given), is executable, and is otherwise unchanged byte for byte, with the right size everywhere; RECORD keeps the hash and size that it had before. All other files, and placeholders anywhere but at the very start or outside of the scripts directory, are left alone.",
     ["inputs"], "every script text, location and pair of interpreters",
     "No offline test installs a script.",
     WHL + ["pkg/python/platform.go"], [("rewriting while reading", "pkg/python/pypa/bdist/binary_distribution_format.go: rewritePython; ioutil.go: skipReader")],
     "whlchk", "PBT (rapid): generated scripts against a model of the rewrite",
     SAMPLING + "placeholders that go on as a longer word (#!python3) are left out, as the specification does not cover them.")

prop("C15", "The installed RECORD and its companions describe the layer truthfully",
     "After recording, RECORD lists every regular file of the layer exactly once, sorted, by its path relative to the directory that holds .dist-info, with its size and hash by the chosen algorithm (sha256 by default; for a script with a rewritten interpreter line those of the text before, as pip does; .pyc files and RECORD itself have neither), including files that earlier hooks added and INSTALLER, direct_url.json and REQUESTED. INSTALLER names the installer; direct_url.json is there if and only if a URL was given, is byte for byte what Python's json.dumps with sorted keys would write, and has no empty optional fields; REQUESTED is empty or has the given text. The result is the same bytes each time; an unsupported algorithm, and a file that cannot be opened or read, is an error.",
     ["inputs"], "every wheel, platform, algorithm, URL record and combination of hooks",
     "json_test.go has one URL; RECORD is only compared with pip's for two wheels, with network and docker.",
     ["pkg/python/pypa/recording_installs/recording_installs.go", "pkg/python/pypa/direct_url/direct_url.go", "pkg/python/pypa/direct_url/json.go", "pkg/python/pep376/requested.go", "pkg/python/hashlib.go", "pkg/python/pypa/bdist/hack.go"],
     [("collecting the rows", "pkg/python/pypa/recording_installs/recording_installs.go: Record"), ("Python-compatible JSON", "pkg/python/pypa/direct_url/json.go")],
     "whlchk", "PBT (rapid): RECORD of generated installations checked against the layer's own files; reference implementation of json.dumps",
     SAMPLING + "URLs are valid UTF-8.")

prop("C16", "Entry points become scripts that run the named function",
     "For each entry in the console_scripts and gui_scripts sections of entry_points.txt, and for nothing else, the scripts directory gets an executable script of exactly that (case-sensitive) name whose first line is the console or graphical interpreter, and which, run by Python, imports the module, calls the named (possibly dotted) function once without arguments, exits with what it returns, and shows it the program's name without a .exe or -script.pyw suffix; importing it does nothing. Extras in brackets are ignored; a value that is not a function reference is an error, and so is an entry_points.txt that cannot be read. If several entries mean the same script, the same one wins each time.",
     ["inputs"], "every entry_points.txt",
     "No test covers entry points offline.",
     ["pkg/python/pypa/entry_points/entry_points.go", "pkg/python/configparser.go"], [("script template and function references", "pkg/python/pypa/entry_points/entry_points.go")],
     "whlchk", "PBT (rapid): generated entry_points.txt against a model; every generated script is executed by a real Python with stand-in modules",
     SAMPLING + "Python is the sandbox's 3.12.")

prop("C17", "A hostile wheel cannot place files outside of the install scheme",
     "Whatever the names in a wheel and in its entry_points.txt - parent-directory components, absolute paths, odd spellings, nested .data directories, link or directory attributes - installing it either fails or gives a layer in which every file is a regular file or directory strictly inside of the scheme's directories (generated scripts inside of the scripts directory, replacing nothing), apart from the parent directories that lead there; and neither the compiler nor the hooks are ever given a path outside of them.",
     ["inputs"], "every archive member name and script name",
     "No test has a hostile wheel.",
     WHL + ["pkg/python/pypa/entry_points/entry_points.go", "pkg/python/py_compile.go"], [("refusing names that lead outside", "pkg/python/pypa/bdist/binary_distribution_format.go: integrityCheck"), ("script names", "pkg/python/pypa/entry_points/entry_points.go")],
     "whlchk", "PBT (rapid): adversarial generator of names; invariant over all paths that reach the layer, compiler and hooks (stand-ins that only record)",
     SAMPLING + "names of up to 8 components.")

prop("C18", "Installed .pyc files are valid, complete and reproducible",
     "With an external compile command, every installed .py file (wherever it lands) gets its .pyc in __pycache__, which Python accepts as up to date for that source, holds the same code as compiling the source afresh, and names the file by its installed path; there are no others, nor any other by-products. The .pyc are mode 0644 and neither older than their source nor later than the latest time; the layer's bytes do not depend on the umask, the temporary directory, hash randomisation or the clock. The command finds exactly the sources (with their times), SOURCE_DATE_EPOCH set to the latest time, and the scheme's library directories in PYTHONPATH. A command that is missing or fails, a source that cannot be read or does not compile, and cancellation are reported; temporary files are always removed.",
     ["inputs", "fault_sequences"], "every set of sources, scheme, environment and outcome of the compile command",
     "No offline test compiles anything.",
     ["pkg/python/py_compile.go", "pkg/python/pypa/bdist/binary_distribution_format.go"], [("running the compile command over a temporary tree", "pkg/python/py_compile.go: ExternalCompiler")],
     "whlchk", "PBT (rapid): generated sources compiled by the real compileall and checked by a real Python against fresh compilation; stand-in compile commands that record and fail",
     SAMPLING + "Python is the sandbox's 3.12.")

PEP440 = ["pkg/python/pep440/01_version_scheme.go", "pkg/python/pep440/02_version_specifiers.go", "pkg/python/pep440/03_tail.go"]
PYREF = "Python's packaging library as a second, independent oracle"

prop("C19", "Version strings are parsed and normalised as PEP 440 says",
     "Every spelling of a version that PEP 440 allows (case, separators, alternative names of the segments, leading v, leading zeros, implicit numbers, surrounding whitespace) is accepted, means the version it stands for, and is printed in the one normal form; parsing what was printed gives the same version back. Everything else is refused with an error. Predicates and parts (pre-release, post-release, development release, local, final, major, minor, micro) agree with the version, and changing a parsed or printed version never changes another.",
     ["inputs"], "every string; every version structure",
     "01_version_scheme_test.go has a table of spellings; the grammar has unboundedly many combinations.",
     PEP440, [("one regular expression with named groups and normalisation", "pkg/python/pep440/01_version_scheme.go: parse and String")],
     "pychk", "PBT (rapid): grammar-based generator that knows the meaning of each spelling; mutation of strings judged by " + PYREF,
     SAMPLING + "numbers of a public version fit in 63 bits; ASCII apart from stray characters.")

prop("C20", "Version comparison is the total order of PEP 440",
     "Comparing versions gives the order that PEP 440 defines over epoch, zero-padded release, development, pre-, post-release and local parts (numbers numerically and above text, text by its letters, longer local above its prefix), for whole and for public versions; equal exactly when they mean the same version, however spelled and however many zeros trail; antisymmetric and transitive; so that sorting any list of versions gives the same sequence of versions as sorting by the reference order. No size of number breaks it.",
     ["inputs"], "every pair, triple and list of versions",
     "01_version_scheme_test.go orders a fixed list of versions.",
     PEP440, [("segment-wise comparison", "pkg/python/pep440/01_version_scheme.go: Cmp")],
     "pychk", "PBT (rapid): reference order over an independent representation, algebraic laws, sorting; differential against " + PYREF,
     SAMPLING + "candidates are variations of each other so that ties in the leading parts are common.")

prop("C21", "Version specifiers accept exactly the versions that PEP 440 says",
     "A specifier matches a version if and only if each of its clauses does: ~=, == and != (with or without .*), <=, >=, < and > as PEP 440 defines them, including the rules for local versions, zero padding, prefixes that end in pre- or post-releases, and post-releases under >. Each valid specifier is parsed, prints as one that parses back to the same, and each invalid one (no operator, misplaced .*, local versions where forbidden, ~= with one component) is refused, and so is ===, which is not supported. Matching changes neither the specifier nor the version.",
     ["inputs"], "every specifier and every version",
     "02_version_specifiers_test.go has a small table; none of its < and > cases noticed that the first character of the version was dropped.",
     PEP440, [("one matcher for each operator", "pkg/python/pep440/02_version_specifiers.go")],
     "pychk", "PBT (rapid): independent model of the operators; differential against " + PYREF,
     SAMPLING + "<V against pre-releases of V, and >V against post-releases or local versions of another pre-release of V's release are not judged: the repository's tests, PEP 440 and packaging disagree there.")

prop("C22", "The best allowed version is selected, pre-releases and yanked ones last",
     "Selecting from a list of versions gives the highest one that matches the specifier and that the exclusion allows; only if it allows none of the matching ones, the highest matching one; and none if nothing matches. Pre-release exclusion allows final and post-releases; an allow-list allows its members; combined exclusions allow what each of them allows. The result is one of the given versions and does not depend on their order.",
     ["inputs"], "every list of versions, specifier and exclusion behaviour",
     "No test covers Select.",
     PEP440 + ["pkg/python/pep592/yank.go"], [("two-pass selection", "pkg/python/pep440/02_version_specifiers.go: Select")],
     "pychk", "PBT (rapid): definition of the result over the reference order; permutation relation",
     SAMPLING + "up to a dozen candidates.")

prop("C23", "Requires-Python is judged by the PEP 345 rules",
     "A requires-python expression (comma-separated clauses; no operator means equality; a version of fewer parts than the Python version covers all that start with it) holds for a Python version exactly if each clause does; malformed expressions are refused. Converting an interpreter's version_info gives the version that it denotes, with alpha, beta, candidate and final levels and the serial.",
     ["inputs"], "every expression and interpreter version",
     "metadata_test.go has a few expressions.",
     ["pkg/python/pep345/metadata.go", "pkg/python/platform.go"], [("prefix comparison of versions", "pkg/python/pep345"), ("version_info", "pkg/python/platform.go: VersionInfo.PEP440")],
     "pychk", "PBT (rapid): independent model of the clauses",
     SAMPLING + "Python versions without local parts.")

prop("C24", "Wheel file names and compatibility tags mean what PEP 425 and 427 say",
     "A wheel file name is split into distribution, version, optional build tag and compatibility tags, and is refused if its parts do not have that form; generating a file name escapes the parts and parses back to the same data. Build tags order by their number, then their text, with no tag first. A compressed tag set stands for the product of its parts; an installer supports a set exactly if it lists one of its members, and prefers the wheel whose best member comes earliest in the installer's list.",
     ["inputs"], "every file name, build tag, tag set and installer",
     "filename tests cover a handful of names.",
     ["pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/python/pep425/tags.go"], [("file name grammar", "pkg/python/pypa/bdist/binary_distribution_format.go: ParseFilename, GenerateFilename"), ("tags", "pkg/python/pep425")],
     "pychk", "PBT (rapid): generator that knows the parts, round trips, independent set model of the tags",
     SAMPLING + "ASCII names.")

prop("C25", "The wheel chosen from an index is the one pip's rules choose",
     "Selecting a wheel for a requirement considers exactly the links that are wheels of that project (by normalised name) with a valid version, matching the specifier, whose requires-python admits the interpreter and one of whose tags the platform supports; among them it takes the highest version that is neither yanked nor (unless nothing else matches) a pre-release, in that version the wheel with the most preferred tag, and then the highest build tag; and reports an error if there is none. The order of the links on the page does not matter, nor do links of other kinds.",
     ["inputs"], "every index page, platform and requirement",
     "The test of SelectWheel needs the network.",
     ["pkg/python/pypa/simple_repo_api/pypa_repo_api.go", "pkg/python/pep592/yank.go", "pkg/python/pep503/simple_repo_api.go"], [("filtering and ranking", "pkg/python/pypa/simple_repo_api/pypa_repo_api.go: SelectWheel")],
     "pychk", "PBT (rapid): generated index pages served from memory, against an independent model of the choice; permutation relation",
     SAMPLING + "all files of a version are yanked or none are.")

prop("C26", "A download is what the index promised, or an error",
     "A file whose link carries hashes is delivered only if it matches each of those that the client knows; the wrong hash, an HTTP status other than 200, a lost connection or a page of a newer major repository version is an error, and no content is delivered (nor printed by python getwheel, which fails with status 1). Index pages are asked for by normalised project name below the base URL, and impossible names never reach the network. Links are read in order with their text and data attributes, and resolved against where the page came from after redirects. Signatures come from the .asc file next to the file, and are reported as missing where the page or the server says so. Response bodies are closed.",
     ["inputs", "fault_sequences"], "every page, content, set of hashes and failure of the connection",
     "The tests of the client need the network.",
     ["pkg/python/pep503/simple_repo_api.go", "pkg/python/pep629/simple_api_versions.go", "pkg/htmlutil/htmlutil.go", "cmd_python_getwheel.go"], [("hash checking", "pkg/python/pep503/simple_repo_api.go: get"), ("repository version", "pkg/python/pep629")],
     "pychk", "PBT (rapid): simulated index servers with injected faults (in memory, and on the loopback for the command), independent model of the results",
     SAMPLING + "lower-case hexadecimal hashes of the six algorithms; hash collisions are ignored.", cli=True)

prop("C27", "Configuration files mean what they mean to Python's configparser",
     "Parsing a configuration file gives the sections, options and values that Python's RawConfigParser gives for it under the same settings (delimiters, full-line and inline comment prefixes, strictness, empty lines in values, name transformation): continuation lines, comments, blank lines, repeated sections and options, and malformed lines, which are refused. It does not matter in which pieces the file arrives; an error of the reader or of the interpolation function is reported; interpolation sees and replaces each value.",
     ["inputs", "fault_sequences"], "every text and combination of settings",
     "No test covers the parser; its only caller reads entry_points.txt of a few wheels from the network.",
     ["pkg/python/configparser.go"], [("line-by-line parser", "pkg/python/configparser.go: Parse")],
     "pychk", "PBT (rapid): differential against CPython's configparser over generated files and settings; injected read errors",
     SAMPLING + "ASCII whitespace, no DEFAULT section; files on which CPython depends on the order of several inline comment prefixes are left out.")

prop("C28", "File modes survive the translation between Python, ZIP and Go",
     "Translating a st_mode of Python to Go's file mode and back loses neither the type nor any of the twelve permission bits, for each of the 65536 modes that names a file type, and agrees with what Python's stat module says of it (type letter, permission string); the DOS and Unix attributes of a ZIP member are kept apart and read as what zipfile wrote.",
     ["inputs"], "every mode, every pair of attribute words",
     "stat_test.go samples a hundred modes, and of those only their printed form.",
     ["pkg/python/stat.go", "pkg/python/zip.go"], [("bit tables", "pkg/python/stat.go, zip.go")],
     "pychk", "PBT (rapid) and enumeration of all 65536 modes against an independent table and Go's archive/zip",
     "all modes are enumerated; ZIP attributes are sampled.")

prop("C29", "Programs and shebangs are looked up in an image as in the running system",
     "Looking up a program in an image follows the image's PATH in order and gives the first entry that is an executable non-directory, following symbolic links within the image; a name with a slash is taken as it is; reading the status of any absolute path (without ..) of the image gives the entry that a process in the container would see there, with its owner, mode and type; the host's file system answers the same questions as the operating system does. The interpreter lines found for console and graphical programs are the interpreter asked for and its w-companion if there is one. Concurrent users of one image do not disturb each other, and an unreadable image is an error.",
     ["inputs", "schedules"], "every image, PATH and name",
     "No test covers the file systems of pyinspect.",
     ["pkg/python/pyinspect/fs_image.go", "pkg/python/pyinspect/fs_native.go", "pkg/python/pyinspect/pyinspect.go"], [("ImageFS and NativeFS", "pkg/python/pyinspect")],
     "pychk", "PBT (rapid): generated images against an independent model of path lookup, real directory trees against the operating system; concurrent use under the race detector",
     SAMPLING + "absolute PATH entries; images of a dozen entries with chains of symbolic links.", race=True)

prop("C30", "python inspect describes the environment that it was asked about",
     "python inspect prints a platform file that says what the interpreter says about itself (magic number, tags, version, installation scheme), names the console and graphical interpreters, the owner of the first installation directory that exists (looked up in the host or in the image), and a compiler: the interpreter itself for the host, or for an image a host interpreter with the same magic number. layer wheel, given the file, installs accordingly. If the interpreter is missing, fails or says something else, no compiler fits, no directory exists, or docker fails, it exits with status 1 and prints no platform. An image is loaded into docker under a temporary name, run with the interpreter as entry point, and removed exactly once, also after a failure.",
     ["inputs", "fault_sequences"], "every environment, image and failure of the interpreter or of docker",
     "The test of pyinspect needs docker and the network.",
     ["cmd_python_inspect.go", "pkg/python/pyinspect", "pkg/dockerutil", "pkg/python/platform.go"], [("dynamic and static inspection", "pkg/python/pyinspect"), ("temporary docker image", "pkg/dockerutil")],
     "clichk", "PBT (rapid): generated environments with stand-in interpreters and a recording stand-in for docker, fault injection, round trip through layer wheel",
     SAMPLING + "there is no docker in the sandbox: a stand-in records its calls; file owners on the host have names.", cli=True)

prop("C31", "An installed wheel is what pip itself would have installed",
     "For any well-formed wheel, installing it into a layer with the entry points, REQUESTED and recording hooks gives the same files with the same content and permissions as pip's own install_wheel gives with the same scheme, interpreter and direct-URL record: the same set of paths, INSTALLER, REQUESTED and direct_url.json, the same interpreter in scripts, compiled files for the same sources, and a RECORD of the same paths with the same hashes and sizes.",
     ["inputs"], "every well-formed wheel",
     "The test that compares with pip needs the network and compares a handful of published wheels.",
     WHEEL if "WHEEL" in globals() else ["pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/python/pypa/entry_points/entry_points.go", "pkg/python/pypa/recording_installs/recording_installs.go", "pkg/python/pypa/direct_url/direct_url.go", "pkg/python/pep376/requested.go"],
     [("installation with hooks", "pkg/python/pypa/bdist/binary_distribution_format.go: InstallWheel")],
     "whlchk", "PBT (rapid): differential against pip 24.0's install_wheel over generated wheels",
     SAMPLING + "not compared: owners, times, directories, arguments of rewritten interpreter lines, whether rewritten scripts are executable, hashes of rewritten scripts, RECORD signatures, the text of generated scripts after the first line, and wheels for which pip and the specifications differ.")

prop("C32", "Help shows everything and fits the terminal",
     "The help of a command, asked for with --help or -h, is its usage, short and long descriptions, examples, every visible subcommand, help topic and flag (its own, persistent or not, and those of its parents) with its description, and no hidden ones. Fitting it to a width changes only white space: every word stays, in order, line breaks of the text stay, following lines are indented below the text (by 16 if there is too little room beside it, in which case the text starts on a line of its own), what fits on one line is not broken, and no line is wider than the width unless a word is too long for it; with width 0, or if too little room is left, lines are not wrapped. The width is COLUMNS if that is a number, else that of the terminal on stdout, else 0.",
     ["inputs"], "every text, width and indentation, every command with subcommands and flags",
     "One test has four commands at one width.",
     ["pkg/cliutil/wordwrap.go", "pkg/cliutil/borrowed_pflag.go", "pkg/cliutil/cobra_tmpl.go", "pkg/cliutil/term.go", "main.go"], [("wrapping", "pkg/cliutil/wordwrap.go"), ("help template", "pkg/cliutil/cobra_tmpl.go")],
     "clichk", "PBT (rapid): word-sequence and layout invariants over generated texts, widths and commands; the binary on generated widths and pseudo-terminals (metamorphic: width changes only white space)",
     SAMPLING + "widths are counted in bytes; lines with a word longer than the room for text are not judged.", cli=True)
