#!/usr/bin/env python3
# Writes properties.jsonl (kept as a program so that the statements stay readable).
import json, os
A='libs/databases/infrastructure/files/application.go'
S='libs/databases/applications/sdk.go'
R='libs/databases/domain/references/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A crash during a commit leaves the state before it or after it, never a mixture",
 "If the process, or the whole machine, stops at any instant while Commit runs, the database can be opened afterwards and shows either exactly the commits and contents it had before, or exactly those plus the complete new commit. No earlier content or commit is ever lost, altered, duplicated or unreadable because of such a stop, whatever the sizes of the contents and of the read chunks.",
 ["crash_points","histories","inputs"],"every stop point between two file-system operations of a commit (and every torn subset of unsynced writes when the machine stops), every history of earlier commits and failed or interrupted commits, content and chunk size",
 "unit tests never stop the process in the middle of a commit; the property speaks about every intermediate state of the disk",
 [A],[("Commit writes a destination file that replaces the source","files.application.updateDatabaseOnFile"),("destination contents","files.application.writeDataAndReferenceOnDestinationFile")],
 [("database file","8-byte reference length, reference, data","<dir>/<name>")],["Open, Commits, ContentKeysByKind and Read of a fresh process after the stop"])
p("C02","What was reported as done survives a power loss",
 "Once New, Delete or Commit returned without an error, a power loss at any later instant cannot take it back: after the restart the created database exists, the deleted one does not, and every committed content and commit is present and byte-for-byte intact. Only data that the file system was asked to make durable may be relied upon.",
 ["crash_points","fault_sequences","histories"],"every history of operations, every later power-loss point, every subset, order and tearing of the writes and directory changes that were not synced",
 "the page cache hides missing or misplaced syncs from every test that does not lose it",
 [A],[("syncs of the destination file and of the directory","files.application.updateDatabaseOnFile, New, Delete")],None,["a fresh process after the power loss"])
p("C03","Committed content is read back byte for byte",
 "After a successful Commit, Read, ReadByHash, ReadAll and ReadAllByHashes return exactly the bytes that were written, in the requested order, and ContentKeysByKind lists exactly the contents of that kind in the order of their writing, in the same context and in every later one. When several contents were written under one hash, reading by hash returns the latest one while the pointers of the earlier ones keep returning their own bytes; an unknown hash, kind or commit hash is an error. The bytes that are returned belong to the caller: changing or extending them changes no other result and no later one.",
 ["histories","inputs"],"every sequence of writes, commits, closes and re-opens, every content length, kind, hash and read chunk size, short reads included",
 "it must hold for every length against every chunk size and every history of re-writes of the file; tests commit two small contents",
 [A,S,R+'contentkeys.go',R+'pointer_adapter.go',R+'contentkey_adapter.go'],[("copy of the existing contents into the new file","writeDataAndReferenceOnDestinationFile"),("pointers relative to the data offset","updateReference, Read")],None,["results of the read operations"])
p("C04","A disk error is never taken for success",
 "When the operating system reports an error, a short read or write, a full disk or a refused lock during an operation, either the operation still has its complete effect, durably, or it returns an error. An operation that returns an error leaves the database with exactly the contents it had before or, for a commit, those plus the whole commit; an Open, Exists or read that cannot be performed returns an error instead of an empty, missing or wrong answer.",
 ["fault_sequences","histories"],"every sequence of operations with any system call failing, shortened or interrupted, transiently or until further notice, and the disk filling up at any byte",
 "tests run on a disk that never fails",
 [A],[("error handling of every file operation","files.application")],None,["return values; the state a fresh process sees right away and after a power loss"])
p("C05","A failed operation leaves the database usable",
 "After an operation failed because of a disk error, or another process died in the middle of one, and the faults stop, every operation works again in a bounded number of system calls: the open contexts still read their contents, the pending content of a failed commit can be committed by repeating Commit on the same context, and databases can be created, opened, deleted and closed. No lock, name or context stays blocked.",
 ["fault_sequences","crash_points","histories"],"every operation failing at any system call, or its process dying there, followed by an arbitrary fault-free suffix",
 "tests never make an operation fail half-way and then go on",
 [A],[("state of a context after a failed commit","Commit, updateDatabaseOnFile, Close"),("lock released by the kernel","fslock")],None,["results of the operations after the last fault, counted system calls"])
p("C06","Concurrent processes never lose or mix each other's commits",
 "When several processes open, write and commit the same database, every commit that returned without an error is present afterwards exactly once, complete, and in an order that respects which one ended before another began; a commit that returned an error left nothing. A commit may be refused while or after another process changed the database, but not when no other operation happened since its context was opened.",
 ["schedules","histories"],"every interleaving of the system calls of several processes, with processes dying at any point",
 "the outcome depends on the interleaving of system calls of several processes; tests run one process",
 [A,'vendor/github.com/juju/fslock/fslock_nix.go'],[("lock of the database and check that it did not change","updateDatabaseOnFile")],None,["linearizability of the recorded history; the state a fresh process sees"])
p("C07","An open context keeps showing one complete version of the database",
 "Open shows exactly the commits and contents the database had at one instant between its call and its return, even while other processes commit, delete or re-create it. Until its own next commit, the context keeps answering every read from that version, whatever other processes do, and after its own commit it shows that version plus its own content.",
 ["schedules","histories"],"every interleaving of Open and reads with commits, deletions and re-creations by other processes",
 "mixing two versions needs another process to commit between two system calls of the reader",
 [A],[("reference and data read from one file that is never modified in place","Open, retrieveReference")],None,["answers of the read operations of an open context"])
p("C08","Creating, deleting and checking databases is atomic between processes",
 "Exists, New and Delete behave as if each took effect at one instant between its call and its return: of several concurrent New for one name exactly one succeeds, a database that was deleted does not come back unless New is called, and New never empties or replaces an existing database. A context whose database was deleted, or deleted and re-created, cannot commit into it.",
 ["schedules","histories"],"every interleaving of the system calls of New, Delete, Exists, Open and Commit in several processes",
 "check-then-act races between processes do not occur in a sequential test",
 [A],[("exclusive creation, lock on deletion","New, Delete, Exists")],None,["linearizability of the recorded history"])
p("C09","The contexts of an application are isolated from each other",
 "Every open context has its own identifier, which refers to the database it was opened for until it is closed and never to anything afterwards: opening, writing, committing, cancelling, failing or closing one context never changes what another one reads, has pending or commits. Opening a name that is already open, and any operation on an identifier that is not open, is refused with an error and changes nothing.",
 ["histories","fault_sequences"],"every sequence of operations on several databases by one application, with failing system calls",
 "identifier confusion needs a particular order of opens and closes",
 [A,'libs/databases/infrastructure/files/context.go'],[("map of contexts","files.application.contexts")],None,["results of operations on every open and closed identifier"])
p("C10","The commits form an append-only chain that records who, when and what",
 "Every commit carries the hash of the commit before it, the clock time of its Commit call, the hash tree of exactly the hashes written in it in their order, and a hash that is the digest of these; the list of commits of a database only ever grows at its end, and every content names the commit that brought it. This is the same in every later context and process and does not depend on how the clock moves: stopped, jumping or going backwards.",
 ["histories","inputs","schedules"],"every history of commits by one or several processes, every movement of the clock, every number of contents per commit",
 "a chain is a property of whole histories, and tests never see the clock go backwards",
 [A,R+'commit_builder.go',R+'commit_adapter.go',R+'commits.go','libs/cryptography/domain/hashtrees/builder.go'],[("commit creation","updateReference"),("commit hash","references.commitBuilder.Now")],None,["Commits, CommitByHash and ContentKey.Commit in every context"])
p("C11","Pending content is invisible until committed, and committed exactly once",
 "Content passed to Write is visible to nobody before Commit, and Cancel, Close or the death of the process discard exactly the pending content. A successful Commit makes exactly the content written to that context since its last successful Commit or Cancel appear, each once, in order, with the bytes they had when Write was called; a failed Commit keeps it pending.",
 ["histories","fault_sequences","crash_points"],"every sequence of Write, Cancel, Commit, Close and re-open in several contexts, with failing commits and later changes of the caller's buffers",
 "tests commit once per context",
 [A,'libs/databases/domain/contents/content_builder.go'],[("pending list of a context","Write, Cancel, Commit")],None,["reads of the context and of fresh processes before and after each step"])
p("C12","A damaged database file is refused or read, never a crash or a hang",
 "Whatever bytes a database file contains (truncated, overwritten, extended or with any field changed), Open and all reads end after a bounded amount of work and memory with a value or an error, without panicking and without modifying the file. A file that lost its end is refused instead of being shown as complete or empty, one that is not empty is never shown as an empty database, an undamaged file is never refused, and the other databases and open contexts are not affected.",
 ["inputs","fault_sequences"],"every byte string, in particular every truncation, overwriting of any range and change of any length field of a valid file",
 "the space of damaged files cannot be sampled by a handful of examples",
 [A,R+'adapter.go',R+'commits_adapter.go',R+'commit_adapter.go',R+'contentkeys_adapter.go','libs/cryptography/domain/hashtrees/leaf_adapter.go'],[("decoding of lengths","retrieveReference, ToReference, ToContentKeys, ToCommits, ToCommit, ContentToParentLeaf")],None,["results of Open and of the reads, bytes of the file afterwards"])
p("C13","No operation leaves descriptors, locks or copies of data behind",
 "Whether it succeeds or fails, no operation leaves a lock held or a file descriptor open other than those of the contexts that are still open, and once every context is closed the process holds none; none closes a descriptor that is not its own. A commit leaves no temporary copy of the data in the directory: none when it succeeded, also when earlier ones failed or died, and no new one when it failed, unless removing it was what failed; so disk space and descriptors do not grow with the number of operations.",
 ["fault_sequences","histories","crash_points"],"every sequence of operations, any system call of which fails",
 "leaks show on error paths and in long histories, which tests do not exercise",
 [A,'vendor/github.com/juju/fslock/fslock_nix.go'],[("closing on every path","updateDatabaseOnFile, Open, Close, New, Delete")],None,["descriptor and lock table of the process, listing of the directory"])
p("C14","Programs run their modules in order, and stop at the first failure",
 "Executing a compiled program calls the module functions in the order of its instructions, the attachments of a call being evaluated before it, with exactly the attached values, and returns the outputs in their order. When a module function returns an error, Execute returns an error and no later function is called; the same program and input can then be executed again with nothing left over from the failed execution.",
 ["programs","fault_sequences","inputs"],"every program of assignments, attachments, executions and sub-programs, every input, and any call of any module failing",
 "tests run one program whose modules do not fail",
 ['libs/interpreters/applications/application.go','libs/interpreters/domain/programs/modules/module.go'],[("execution of instructions","application.Execute, executeValue, execute"),("compilation","application.Compile")],None,["calls and arguments seen by the module functions, result of Execute"])
p("C15","Queries call their functions as written, and report their failures",
 "Executing a query on a tree selects the requested element and content, calls the content and query functions exactly once per selected item in tree order, nested fetchers before the enclosing function and recursive fetchers on the named query, skips results reported as invalid, and returns the value, the validity and the remaining bytes of the tree. When any function returns an error, Execute returns that error and calls nothing more; a query that does not match the tree ends with an error, one that selects nothing with an invalid result, neither with a panic.",
 ["inputs","programs","fault_sequences"],"every tree and query shape, including recursive ones and ones that do not fit the tree, and any call of any function failing or answering invalid",
 "tests run two queries whose functions do not fail",
 ['libs/queries/applications/application.go'],[("fetching","queryFetch, queryContents, queryInstance, insideInstances")],None,["calls and arguments seen by the functions, result of Execute"])
p("C16","One engine instance serves interleaved callers as if each ran alone",
 "The grammar engine, the interpreter, the query engine and the hash, hash tree, reference and content adapters with their builders keep nothing between calls: when several callers use one instance at the same time, one after the other, or after a call that failed, or a function called by it uses it again, each call returns what it would return alone, no two calls access the same memory at the same time with one of them writing it (without a lock or the like between them), and the grammars, programs, queries, trees, references and byte slices passed in are not modified.",
 ["schedules","programs","inputs"],"every interleaving of the statements of two or more calls on shared instances and shared inputs",
 "shared state between calls shows only under particular interleavings",
 ['libs/asts/applications/application.go','libs/interpreters/applications/application.go','libs/queries/applications/application.go','libs/cryptography/domain/hashtrees/builder.go',R+'adapter.go','libs/databases/domain/contents/adapter.go'],[("builders copied by Create","domain builders"),("no fields written after construction","applications")],None,["results of interleaved calls against the same calls alone"])
p("C17","Results do not depend on the runtime's random map order",
 "Parsing, composing, coverage, compiling, executing, querying and committing give the same result for the same input whatever order the language runtime iterates over maps in and whatever process they run in: the same trees, the same covered and uncovered elements, the same programs, the same bytes on disk for the same writes at the same times.",
 ["schedules","inputs"],"every iteration order of the maps involved",
 "the runtime picks the order at random, a test sees one or two of them",
 ['libs/asts/applications/application.go','libs/interpreters/applications/application.go','instances/grammars/components/suites/suite.go',R+'contentkeys.go'],[("maps iterated on the way to a result","Uncovered, findElements, compileParameter, suites")],None,["results of runs that differ only in map order"])
# not applicable: single-call pure functions
p("N01","Parsing never loses bytes",
 "Executing a grammar on data returns a tree whose bytes, channels included, followed by its remaining bytes are exactly the data.",
 ["inputs"],"every grammar and input","inputs and grammars are unbounded",
 ['libs/asts/applications/application.go','libs/asts/domain/trees/tree.go'],[("parsing","application.Execute")])
p("N02","Hash trees keep their leaves through every conversion",
 "A hash tree built from blocks has as leaves the hashes of the blocks padded to a power of two, its head is the Merkle root, and converting it to bytes, to a compact form and back, or re-ordering mixed data by it, preserves it.",
 ["inputs"],"every list of blocks","the number and content of blocks is unbounded",
 ['libs/cryptography/domain/hashtrees/adapter.go','libs/cryptography/domain/hashtrees/builder.go'],[("conversion","adapter.ToContent, ToHashTree, ToCompact, ToOrder")])
p("N03","Contents and references convert to bytes and back without change",
 "Encoding contents, pointers, content keys, commits (mined ones included) and references to bytes and decoding them gives equal values.",
 ["inputs"],"every value","the values are unbounded",
 ['libs/databases/domain/contents/adapter.go',R+'commit_adapter.go'],[("codecs","ToContent and its inverse in each adapter")])
p("N04","The compiler refuses every ill-formed program",
 "Compile refuses instructions that use an undeclared module, application, parameter or variable, declare one twice, or read an output parameter, and accepts all others.",
 ["programs"],"every list of instructions","programs are unbounded",
 ['libs/interpreters/applications/application.go'],[("checks","compileInstruction and its helpers")])
p("N05","The shipped grammar accepts exactly the documented language",
 "The token suites of the shipped grammar are accepted or refused as they are declared, and variables, values, tokens and grammars follow the documented syntax.",
 ["inputs"],"every text","the language is infinite",
 ['instances/grammars/grammars/grammar.go','README.md'],[("grammar definition","grammars.grammar")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
