NOTE = """Random search with shrinking over generated cases against an
independent oracle; no proof, the bound is the number of cases."""

prop("C01", "What a class file holds is what is reported of it",
     """For every well-formed class file, whatever its versions, flags, names,
     constants, members and attributes, and however its constants are laid
     out, reading it (from bytes, a stream or a file) reports exactly those
     facts: constants by index and value, super class, interfaces, fields and
     methods with their flags, signatures, exceptions and constant values,
     inner classes and enclosing method, source and debug information.""",
     ["inputs"],
     """all class files of the format up to Java 8 attributes and the constant
     kinds up to Java 11""",
     """Tests read a handful of sample classes compiled by javac; the format's
     combinations (two-slot constants, non-ASCII and supplementary names,
     empty attributes, constants in any order, large tables) are unbounded.""",
     ["javatools/__init__.py", "javatools/pack.py"],
     [("JavaClassInfo/JavaConstantPool unpack and accessors",
       "javatools/__init__.py"), ("Unpacker", "javatools/pack.py")],
     "property-based testing (grammar-generated class files, round trip "
     "against an independent writer)", NOTE,
     ["javatools.unpack_class", "JavaClassInfo accessors"])

prop("C02", "Disassembly and line tables are those of the bytecode",
     """Disassembling any legal code sequence gives every instruction once, in
     order, with its offset, opcode and operands (signed as the instruction
     set says, wide forms and switches at any alignment included). Each
     instruction is attributed to the source line the line number table gives
     it, and grouping by lines loses and reorders nothing.""",
     ["inputs", "programs"],
     "all instruction sequences over the 202 opcodes, all line tables",
     """Tests disassemble nothing by value; operand signs, padding and line
     tables out of order only show in particular sequences.""",
     ["javatools/opcodes.py", "javatools/__init__.py"],
     [("opcode table and disassemble", "javatools/opcodes.py"),
      ("JavaCodeInfo", "javatools/__init__.py")],
     "property-based testing (generated instruction sequences, reference "
     "assembler)", NOTE, ["opcodes.disassemble", "JavaCodeInfo"])

prop("C03", "Annotations are read, printed and compared by content",
     """Every annotation on a class, member or parameter, and every annotation
     default, is reported with its type, names and values at every nesting
     depth. Two annotations are equal exactly when their contents are,
     whatever constant indices they use.""",
     ["inputs"], "all annotation values of the format, nested, in any pool",
     "Tests look at one or two simple annotations of sample classes.",
     ["javatools/__init__.py"],
     [("JavaAnnotation, _unpack_annotation_val", "javatools/__init__.py")],
     "property-based testing (recursive generator, model comparison)", NOTE,
     ["get_annotations", "get_annotationdefault"])

prop("C04", "Malformed class files are refused cleanly",
     """Input which is not a class file, is cut short, or has constants which
     are not there is refused with the documented unpacking errors, never by
     hanging, by another kind of error, or by reporting made-up contents; the
     predicates is_class and is_class_file answer for any input. The unpacking
     primitives read exactly the bytes asked for and fail when there are too
     few.""",
     ["inputs"], "arbitrary bytes, truncations at every length, mutations",
     "Tests try two broken files and a few primitive reads.",
     ["javatools/__init__.py", "javatools/pack.py"],
     [("unpack_class, is_class", "javatools/__init__.py"),
      ("BufferUnpacker, StreamUnpacker", "javatools/pack.py")],
     "fuzzing (mutation and truncation of generated classes) with model "
     "of the primitives", NOTE, ["unpack_class", "is_class", "pack.unpack"])

prop("C05", "Readable forms say what descriptors and constants mean",
     """The readable forms of types, members, classes, flags and constants
     name exactly what the descriptor, flag word or constant means, and
     distinct members get distinct identifiers; the platform named is that of
     the class version.""",
     ["inputs"], "all descriptors, flag words, versions, constants",
     "Tests check a few descriptors of sample classes.",
     ["javatools/__init__.py"],
     [("_pretty_type, pretty_* methods, platform_from_version",
       "javatools/__init__.py")],
     "property-based testing and enumeration against a reference formatter",
     NOTE, ["pretty_*"])

prop("C06", "classinfo prints the selected facts, as text and as JSON",
     """For every class file and combination of options, classinfo exits 0 and
     prints the class header, exactly the members the visibility option
     selects and exactly the sections the options ask for, with the values the
     class file has. With --json the output is JSON documents saying the
     same.""",
     ["inputs", "configurations"], "class files times option combinations",
     "One test runs one option on one class and looks at the exit code.",
     ["javatools/classinfo.py"],
     [("cli_print_classinfo, cli_simplify_*", "javatools/classinfo.py")],
     "property-based testing (generated classes and options, reference "
     "rendering)", NOTE, ["javatools.classinfo.main"])

prop("C07", "Provided and required names are exactly what the classes say",
     """What a class provides (itself and its members, private ones only on
     request) and requires (every class, field and method its constants refer
     to, arrays being looked through to their element class) is exactly what
     its model says. For a JAR or a distribution these are the unions over its
     classes, minus what it provides itself, and the lists and reports of
     jarinfo and distinfo (text and JSON) name just those, in JARs and
     distributions which are zipped, exploded or nested.""",
     ["inputs"], "classes, jars and distributions referring to one another",
     "Tests list what a few sample classes and jars provide.",
     ["javatools/__init__.py", "javatools/jarinfo.py",
      "javatools/distinfo.py"],
     [("get_provides, get_requires", "javatools/__init__.py"),
      ("JarInfo", "javatools/jarinfo.py"),
      ("DistInfo", "javatools/distinfo.py")],
     "property-based testing (generated classes, set model)", NOTE,
     ["get_provides", "get_requires", "jarinfo.main", "distinfo.main"])

prop("C08", "Classes differing in layout only are reported as the same",
     """Comparing a class with itself reports no change, and comparing it with
     a copy whose constants are merely numbered differently, or whose members
     or attributes are in another order, reports no change but that of the
     constant pool: classdiff --ignore-pool then exits 0.""",
     ["inputs"], "classes times layouts of their constant pool and members",
     """Tests compare sample classes with themselves; constants laid out
     differently need a writer.""",
     ["javatools/classdiff.py", "javatools/__init__.py"],
     [("JavaClassChange and its collections", "javatools/classdiff.py"),
      ("__eq__ of members, code and annotations", "javatools/__init__.py")],
     "property-based testing (metamorphic: re-layout of generated classes)",
     NOTE, ["classdiff.JavaClassChange", "classdiff.main"])

prop("C09", "classdiff misses no change of a class, and invents none",
     """For two classes classdiff reports as changed exactly those facts which
     differ: names, versions, flags, signatures, interfaces, annotations,
     fields and methods added, removed or changed (paired by name and
     descriptor), their types, values, exceptions, and of their code the
     sizes, instructions with their operands, lines and handlers, each below
     the very member it belongs to.""",
     ["inputs"], "pairs of classes: mutations and independent ones",
     """Tests compare a few pairs of sample classes, looking at one or two
     changes of each.""",
     ["javatools/classdiff.py"],
     [("JavaClassChange and below", "javatools/classdiff.py")],
     "property-based testing (generated mutations, independent difference "
     "model)", NOTE, ["classdiff.JavaClassChange", "classdiff.main"])

prop("C10", "Ignore options of classdiff ignore just what they name",
     """classdiff exits 1 exactly when some change of the two classes is not
     ignored by the options given: a change is ignored when an option names it
     (version or platform raised or lowered, absolute or relative lines,
     deprecation, constant pool, added members), in any spelling of the
     options (--ignore=a,b; single options; groups), and an option never
     hides a change of another kind. The same options have the same meaning
     in jardiff and distdiff.""",
     ["inputs", "configurations"], "pairs of classes times option sets",
     "Tests run three sample pairs with single options.",
     ["javatools/classdiff.py", "javatools/change.py"],
     [("is_ignored of the changes", "javatools/classdiff.py"),
      ("option parsing", "javatools/classdiff.py")],
     "property-based testing and enumeration of options (model of ignoring)",
     NOTE, ["classdiff.main"])

prop("C11", "Trees of changes keep and count every change",
     """A group of changes is a change exactly when one of its parts is, and
     ignored exactly when it has changed parts and all of these are ignored
     (one which has changed but has no parts is not ignored); checking, iterating, collecting, squashing, and rendering the
     tree as text or JSON keeps every change which is to be shown, with its
     label and place, and shows no other.""",
     ["inputs"], "trees of changes of any shape, with any options",
     "Tests build two or three small trees.",
     ["javatools/change.py", "javatools/report.py"],
     [("GenericChange, SuperChange, SquashedChange, squash",
       "javatools/change.py"),
      ("JSONReportFormat, TextReportFormat", "javatools/report.py")],
     "property-based testing (recursive generator, tree model)", NOTE,
     ["change.SuperChange", "change.squash", "report.quick_report"])

prop("C12", "Archive comparison classifies every entry by name and bytes",
     """Comparing two archives, zip files or directories in any combination,
     reports every file entry exactly once as added, removed, changed or the
     same, exactly as the names and the bytes of the entries say, whatever the
     compression, entry order or checksum; entries of either kind of archive
     read back their bytes, and counts and sizes add up.""",
     ["inputs"], "pairs of archives and directories",
     """Tests compare a few sample jars; equal size and CRC, chunk boundaries
     and directories standing for archives are not reached.""",
     ["javatools/ziputils.py"],
     [("compare_zips, _deep_different, ExplodedZipFile",
       "javatools/ziputils.py")],
     "property-based testing (model comparison, forged CRCs, symmetry)",
     NOTE, ["ziputils.compare", "ziputils.collect_compare"])

prop("C13", "jardiff tells every entry apart by kind and by change",
     """Comparing two JARs (zipped or exploded) reports each entry once, by
     the kind it is of (class, manifest, signature file, signature block,
     other content) as added, removed or changed, exactly when its content is
     different by the rules of its kind; jardiff exits 1 exactly when some
     change is not ignored by the options for signatures, manifests, their
     keys, entries by pattern and classes, 0 otherwise.""",
     ["inputs", "configurations"], "pairs of JARs times option sets",
     "Tests compare four pairs of sample jars.",
     ["javatools/jardiff.py", "javatools/manifest.py"],
     [("JarChange, JarContentsChange and below", "javatools/jardiff.py"),
      ("ManifestChange", "javatools/manifest.py")],
     "property-based testing (generated jars and options, model)", NOTE,
     ["jardiff.JarChange", "jardiff.main"])

prop("C14", "Tree comparison and copying lose and invent no file",
     """Comparing two directory trees reports every file below either of them
     exactly once, as added, removed, changed or the same according to its
     bytes, whatever its name, depth or time stamp. Copying a tree makes every
     directory and file of it appear, with its bytes, in the destination, and
     reports exactly the files copied. Links are what they lead to; a file
     replaced by a broken link was removed, and a file which can't be read is
     never reported as the same.""",
     ["inputs"], "pairs of directory trees",
     """Tests compare trees of one file each.""",
     ["javatools/dirutils.py"],
     [("compare, copydir, fnmatches", "javatools/dirutils.py")],
     "property-based testing (dictionary model)", NOTE,
     ["dirutils.compare", "dirutils.copydir"])

prop("C15", "distdiff tells every file apart by kind and by change",
     """Comparing two distribution directories reports each file once, by the
     kind it is of (JAR, class, text, manifest, other content; just content
     when shallow) as added, removed, changed or the same: JARs, classes and
     manifests by what they mean, everything else by its bytes, line endings
     and encodings included. distdiff exits 1 exactly when some change is not
     ignored by the options for file names, trailing whitespace, JARs,
     manifests and classes, 0 otherwise.""",
     ["inputs", "configurations"], "pairs of directory trees times options",
     "Tests compare two pairs of sample distributions.",
     ["javatools/distdiff.py", "javatools/dirutils.py"],
     [("DistChange and below", "javatools/distdiff.py")],
     "property-based testing (generated trees and options, model)", NOTE,
     ["distdiff.DistChange", "distdiff.main"])

prop("C16", "distdiff finds the same with and without helper processes",
     """With any number of helper processes (--processes) distdiff exits with
     the same code, prints the same and writes the same report files as with
     none, and it always ends, even when a file can't be read; then it fails
     either way.""",
     ["inputs", "schedules"],
     "pairs of distributions, report formats, numbers of helpers",
     "Tests run one comparison with reports, looking at the exit code.",
     ["javatools/distdiff.py"],
     [("DistReport.mp_check_impl, _mp_run_check", "javatools/distdiff.py")],
     "property-based testing (differential: parallel against sequential "
     "runs, with unreadable files injected)", NOTE, ["distdiff.main"])

prop("C17", "Reports in every format say what was found, all of it",
     """Whatever the options, the text, JSON and HTML reports of classdiff,
     jardiff and distdiff, on the console, in a file (-o) or in a report
     directory, list just the changes which are to be shown (ignored and
     unchanged ones on request), nested as found, with the same facts; a
     sub-report is written for every class and JAR which differs, and pages
     link to all of them; constant pools, code and member facts in pages are
     complete. Reports never change the exit code.""",
     ["inputs", "configurations"],
     "pairs of classes, JARs and distributions times report options",
     "Tests check that reports are written at all.",
     ["javatools/report.py", "javatools/change.py", "javatools/classdiff.py",
      "javatools/cheetah"],
     [("Reporter and report formats", "javatools/report.py"),
      ("templates", "javatools/cheetah"),
      ("merge_code, pretty_merge_constants", "javatools/classdiff.py")],
     "property-based testing (parsed reports against the tree of changes)",
     NOTE, ["quick_report", "Reporter", "report files"])

prop("C18", "Manifests keep every attribute through parsing and storing",
     """A manifest or signature file, however folded, with any kind of line
     ends and any characters in its values, is parsed into just its
     attributes and sections in order. What is stored has lines of at most 72
     bytes, one kind of line end, a section for each name, and parses again
     to the same (so storing is stable). The API for attributes and sections
     acts as a dictionary of them. Bytes which are not a manifest are refused
     with MalformedManifest or ManifestKeyException.""",
     ["inputs", "histories"], "manifests, sequences of API calls, any bytes",
     "Tests parse and store about a dozen sample manifests.",
     ["javatools/manifest.py"],
     [("parse_sections, write_key_val, Manifest", "javatools/manifest.py")],
     "property-based testing (independent reader and writer, stateful model, "
     "junk input)", NOTE, ["Manifest.parse", "Manifest.store"])

prop("C19", "Manifest digests are those of the content, verified exactly",
     """`manifest create` gives every file of a directory or archive which is
     not ignored one section with the digests asked for, of its very bytes.
     `manifest verify` and verify_jar_checksums find exactly the entries of
     which no digest matches (and, when strict, those without one), whatever
     their order, and change neither manifest nor JAR; add_jar_entries makes
     every entry match again and keeps other attributes. `manifest query`
     prints the values stored.""",
     ["inputs", "configurations"],
     "contents, digests right and wrong, command line options",
     "Tests create and verify a few sample JARs.",
     ["javatools/manifest.py"],
     [("cli_create, cli_query, verify_jar_checksums, add_jar_entries",
       "javatools/manifest.py")],
     "property-based testing (digests computed independently)", NOTE,
     ["manifest.main", "Manifest.verify_jar_checksums"])

prop("C20", "Manifest comparison finds differing attributes, not layout",
     """Comparing two manifests or signature files finds the main section
     changed exactly when its attributes differ, and each section once as
     added, removed, changed or the same; folding, line ends, empty lines and
     the order of sections make no difference. Swapping the sides swaps added
     and removed. A change is ignored exactly when all of its parts are, by
     the options for manifests, subsections, keys and signatures; squashing
     and simplifying keep what was found.""",
     ["inputs", "configurations"], "pairs of manifests times ignore options",
     "Tests compare two pairs of sample manifests.",
     ["javatools/manifest.py", "javatools/change.py"],
     [("ManifestChange and below", "javatools/manifest.py"),
      ("squash, simplify", "javatools/change.py")],
     "property-based testing (metamorphic layout, model)", NOTE,
     ["ManifestChange", "SignatureManifestChange"])

prop("C21", "A signed JAR verifies, and signing keeps all else",
     """Whatever its entries and manifest, a JAR signed with any RSA, DSA or EC
     key, digest, alias and extra certificates verifies for the signer's
     certificate (through the API and `jarutil`), also when it is signed
     again, with the same alias or another one and the same digest, and
     doesn't verify for another certificate. The signature is of the digest
     asked for. The signature file has such
     digests of the manifest, its main section and each section; the manifest
     has those of the entries and all attributes it had. All other entries
     keep name, order and bytes; with an output file the input stays as it
     is, and so it does when signing fails.""",
     ["inputs", "histories", "configurations"],
     "JARs, keys, aliases, digests, sequences of signing",
     "Tests sign one sample JAR with one key of each type.",
     ["javatools/jarutil.py", "javatools/manifest.py", "javatools/crypto.py"],
     [("sign", "javatools/jarutil.py"),
      ("digest_manifest, add_jar_entries", "javatools/manifest.py"),
      ("create_signature_block", "javatools/crypto.py")],
     "property-based testing (sequences of signing against an independent "
     "account of digests, openssl as a second opinion)", NOTE,
     ["jarutil.sign", "jarutil.verify", "jarutil.main"])

prop("C22", "A signed JAR which was tampered with does not verify",
     """When an entry of a signed JAR is altered, added, renamed or exchanged
     for another, when an attribute, section or digest of its manifest is
     added, removed or altered, when its signature file is altered in any
     byte, when the signature is damaged, missing, of something else, taken
     from another JAR or made by someone of the same name, verification fails
     with the documented error for it, whatever digests the signature file
     has, and even if the attacker puts all digests right. If any bytes
     anywhere in the archive are altered and it does verify, all of its
     entries and attributes are those signed. Recompressing, reordering,
     comments and directories do no harm.""",
     ["inputs", "faults"], "signed JARs times alterations",
     "Tests have about ten tampered sample JARs.",
     ["javatools/jarutil.py", "javatools/manifest.py", "javatools/crypto.py"],
     [("verify", "javatools/jarutil.py"),
      ("verify_manifest, verify_jar_checksums", "javatools/manifest.py")],
     "property-based testing and fuzzing (generated tampering of whole "
     "archives and of each signed part)", NOTE, ["jarutil.verify"])

prop("C23", "Signatures verify for the right signer and certificate only",
     """Of several signers the one asked for decides. A signature verifies
     exactly when the certificates given anchor the signer's own: itself when
     self-signed, the root of its chain (with those in between given or in
     the block), within its time, and with a key usage allowing signatures,
     whatever its extended usage; never one of the same name with another
     key. A block which is malformed in any way, of another kind, or of other
     content fails with SignatureBlockVerificationError and nothing else. The
     type of a private key is found whatever surrounds it, and otherwise
     CannotFindKeyTypeError is raised.""",
     ["inputs", "configurations", "faults"],
     "signers, trusted certificates, blocks of any bytes",
     "Tests verify with the right certificate and one wrong one.",
     ["javatools/crypto.py", "javatools/jarutil.py"],
     [("verify_signature_block, private_key_type", "javatools/crypto.py"),
      ("choice of the signature file", "javatools/jarutil.py")],
     "property-based testing and fuzzing (table of certificates, mutated "
     "blocks)", NOTE, ["jarutil.verify", "crypto.verify_signature_block"])

prop("C24", "jarutil create packs exactly what it is given",
     """Creating a JAR from files and directories, by whatever path, gives an
     archive with META-INF/, a manifest (with the main class asked for), and
     an entry for each file and directory given or below one given, once,
     with its bytes; it changes nothing else, replaces what was there before,
     and what it made can be signed and verified.""",
     ["inputs", "configurations"], "directory trees and paths",
     "Tests create one JAR from sample files.",
     ["javatools/jarutil.py"], [("create_jar", "javatools/jarutil.py")],
     "property-based testing (model of the tree)", NOTE,
     ["jarutil.create_jar", "jarutil.main"])

prop("C25", "jarinfo describes an archive as it is",
     """jarinfo prints the number of entries and their sizes (as text and
     JSON), every attribute of the manifest, or that there is none, and for
     each class what classinfo prints for it with the same options, for
     archives and exploded directories alike, several in order, and changes
     nothing. JarInfo gives the same classes, manifest and entries.""",
     ["inputs", "configurations"], "archives times options",
     "Tests look at one sample JAR's requirements.",
     ["javatools/jarinfo.py"],
     [("cli_jarinfo, cli_jarinfo_json, JarInfo", "javatools/jarinfo.py")],
     "property-based testing (model of the archive, differential against "
     "classinfo)", NOTE, ["jarinfo.main", "JarInfo"])

prop("C26", "Signatures and manifests work with those of Java, either way",
     """A JAR signed with Java's own signer, with any key, digest and signature
     algorithm and any contents, verifies for that certificate, not for
     another one and not when altered. Every entry of a JAR signed here is
     signed by that certificate for java.util.jar too, and whatever verifies
     here, tampered with or not, is all signed for Java. Manifests are read
     the same here and by Java, as written by either.""",
     ["inputs", "histories"],
     "all JARs times signers times alterations; manifests ending lines with "
     "LF or CRLF, keys Java allows",
     "Tests verify one JAR signed by an old jarsigner.",
     ["javatools/jarutil.py", "javatools/manifest.py",
      "javatools/crypto.py"],
     [("sign, verify", "javatools/jarutil.py"),
      ("Manifest, SignatureManifest", "javatools/manifest.py")],
     "property-based testing (differential against Java's JarSigner, JarFile "
     "and Manifest)", NOTE, ["jarutil.sign", "jarutil.verify", "Manifest"])

prop("C27", "Compiled classes are read as javap reads them, and so are their "
     "diffs",
     """Every class file javac makes of a program, with any options, and every
     class file of the Java platform, is read as javap reads it: version,
     flags, names, constants, members, attributes, annotations, code, line
     tables and handlers. The members are those the source declares. What
     classdiff reports of the classes of two versions of a program is what
     differs by javap's account: nothing when only their constant pools are
     laid out in another way, and just lines when the source was only moved.
     """,
     ["inputs", "histories"],
     "generated Java programs and edits of them, class files of the platform "
     "at hand; what javap doesn't print isn't compared",
     "Tests sample a handful of classes compiled long ago.",
     ["javatools/__init__.py", "javatools/opcodes.py",
      "javatools/classdiff.py"],
     [("JavaClassInfo", "javatools/__init__.py"),
      ("disassemble", "javatools/opcodes.py"),
      ("JavaClassChange", "javatools/classdiff.py")],
     "property-based testing (differential against javap, over programs "
     "compiled by javac)", NOTE,
     ["unpack_class", "disassemble", "JavaClassChange"])

prop("C28", "What a command does depends on its arguments and files alone",
     """Every command (classdiff, classinfo, distdiff, distinfo, jardiff,
     jarinfo, jarutil, manifest) exits with the same code, prints the same
     and writes the same files whenever it is run with the same arguments on
     the same files: in a process of its own, whatever the hash seed, and
     after any other commands in one process. Characters which can't be
     encoded are no reason for any of them to fail.""",
     ["inputs", "histories"],
     "sequences of commands, inputs and arguments; dates within archives and "
     "signature blocks aren't compared",
     "Tests call single functions in one process, with one hash seed.",
     ["javatools/classdiff.py", "javatools/classinfo.py",
      "javatools/distdiff.py", "javatools/distinfo.py",
      "javatools/jardiff.py", "javatools/jarinfo.py",
      "javatools/jarutil.py", "javatools/manifest.py",
      "javatools/report.py", "javatools/ziputils.py"],
     [("main", "javatools/*.py"), ("compare_zips", "javatools/ziputils.py"),
      ("cheetah_template_map", "javatools/report.py")],
     "property-based testing (metamorphic: one process against fresh ones)",
     NOTE, ["main"])

prop("C29", "Signature files take a manifest as far as their digests are right",
     """A signature file takes a manifest when any of its digests of the whole
     is right; otherwise, when one of its digests of the main section is
     right, exactly those sections fail none of whose digests is right (and,
     when strict, those without any); otherwise the manifest itself fails. A
     digest is right when it is of the very bytes of the file (a section's end
     with one blank line), or of what we'd store. digest_manifest makes one
     which takes just that manifest, in any layout, and of another fails
     exactly the sections added or altered. Verifying changes neither; digests
     of streams and trees of files are those of all their bytes.""",
     ["inputs"],
     "manifests in any layout; signature files with right, wrong and missing "
     "digests of five algorithms; alterations of manifests",
     "Tests verify whole JARs signed by one tool, where the digest of the "
     "whole decides nearly always.",
     ["javatools/manifest.py"],
     [("verify_manifest, verify_manifest_entry_checksums, "
       "verify_manifest_main_checksum, digest_manifest",
       "javatools/manifest.py"),
      ("multi_path_generator, digest_chunks, b64_encoded_digest",
       "javatools/manifest.py")],
     "property-based testing (hand-made signature files against a model of "
     "the verification rules)", NOTE,
     ["SignatureManifest.verify_manifest"])

prop("C30", "What can't be read is never reported as fine",
     """When an archive is damaged, or a class or archive is cut short, missing
     or something else, every command which needs it fails (a non-zero exit
     code), whichever side it's on and however deep within a distribution; if
     all which is needed can be read all the same, it says just what is there.
     Arguments which make no sense (unknown options and commands, too few or
     too many files, bad numbers) are refused. Files read are not changed,
     a JAR which can't be signed stays as it was, and no temporary files are
     left."""
     ,
     ["inputs", "faults"],
     "byte edits of archives, places to cut classes at, arguments",
     "Tests have no damaged archives, and run commands with good arguments.",
     ["javatools/classdiff.py", "javatools/classinfo.py",
      "javatools/distdiff.py", "javatools/distinfo.py",
      "javatools/jardiff.py", "javatools/jarinfo.py",
      "javatools/jarutil.py", "javatools/manifest.py",
      "javatools/ziputils.py"],
     [("main", "javatools/*.py"), ("zip_file, compare_zips",
                                   "javatools/ziputils.py"),
      ("DistInfo", "javatools/distinfo.py")],
     "fuzzing (byte edits of archives, cut classes, arguments) against an "
     "independent account of what can be read", NOTE, ["main"])

prop("C31", "Without M2Crypto nothing is signed or said to be verified",
     """Where M2Crypto can't be imported, everything which needs it is refused:
     functions of the API raise CryptoDisabled, commands which sign or verify
     exit with another code than 0, say that M2Crypto is missing if nothing
     else is wrong, never say that a JAR has been verified, and leave every
     file as it was. All else (comparing, describing and packing of signed
     JARs too) does, prints and writes just what it does with M2Crypto.""",
     ["inputs", "configurations"],
     "commands, files, keys, JARs signed, unsigned and tampered with",
     "Tests run with M2Crypto only (or skip what needs it).",
     ["javatools/crypto.py", "javatools/jarutil.py",
      "javatools/manifest.py"],
     [("requires_crypto, crypto_enabled", "javatools/crypto.py"),
      ("cli_sign_jar, cli_verify_jar_signature", "javatools/jarutil.py"),
      ("get_signature", "javatools/manifest.py")],
     "property-based testing (differential: a process without M2Crypto "
     "against one with it)", NOTE,
     ["crypto.*", "jarutil.main", "main"])

prop("C32", "Many files are handled as each of them is alone",
     """What is put together of many JARs, classes and other files is handled
     as each of them is alone, however few files can be open at a time:
     distdiff of distributions, and jardiff of JARs, which hold others'
     contents in directories, tell of each file what they tell of it alone
     (same-named files of different directories are told apart), and exit
     with 1 exactly when one of the parts does; distinfo of a
     distribution's copies is that of the distribution; classinfo and
     jarinfo of many files print what they print of each, in turn.""",
     ["inputs", "configurations"],
     "distributions, JARs and classes, and how many of each; options",
     "Tests compare and describe single small files.",
     ["javatools/distdiff.py", "javatools/jardiff.py",
      "javatools/jarinfo.py", "javatools/distinfo.py"],
     [("DistChange.collect_impl, DistJarChange", "javatools/distdiff.py"),
      ("JarChange, JarContentsChange", "javatools/jardiff.py"),
      ("JarInfo.close", "javatools/jarinfo.py")],
     "property-based testing (metamorphic: the whole against its parts, with "
     "few file descriptors)", NOTE,
     ["main"])
