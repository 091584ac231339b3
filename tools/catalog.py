"""The one place the properties are written down.

tools/mk.py makes properties.jsonl and MANIFEST.json from this.
"""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note,
         observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mechanism=mechanism, technique=technique,
                  note=note, observe=list(observe), na=na))


EXPL = ('Random search, no proof: absence of a counterexample among the cases '
        'the evidence file counts. ')
RT = 'property-based testing, '

# --------------------------------------------------------------------- metadata

prop('A01', 'Metadata survives extended attributes and metastore blobs exactly',
     'For any path metadata and any prefix, encoding it as extended attributes or as a '
     'metastore blob and decoding it gives back the same value in every field, also after '
     'a trip through the extended attributes of a real file or directory. Attributes '
     'stored under another prefix neither leak in nor are disturbed. The stored bytes are '
     'the plain text or raw digest of the value, and timestamps packed by old versions '
     'still decode.',
     ['inputs'], 'all metadata values (every subset of fields, text in any script with any '
     'separator, digests of arbitrary bytes, naive and aware timestamps) and prefixes',
     'the tests encode one or two fixed values; separators inside values, prefix overlap and '
     'timezone forms are never varied',
     ['augpathlib/meta.py', 'augpathlib/core.py'],
     [{'name': 'as_xattrs/from_xattrs/as_metastore', 'where': 'augpathlib/meta.py'},
      {'name': 'XattrHelper.setxattrs/xattrs', 'where': 'augpathlib/core.py'}],
     RT + 'round trip', EXPL + 'Oracle: the generated field values themselves and an '
     'independent statement of the stored bytes. Trusts the file system to store xattrs.')

prop('A02', 'Metadata survives a symlink exactly or is refused',
     'Metadata written as a symbolic link and read back through a path gives the same value '
     'in every field, or else writing it fails with an error; a value is never silently '
     'altered. A refusal only happens for values the format cannot hold (its reserved '
     'characters, a slash in a name, an empty id). The link is relative and never resolves, '
     'and when it is read under another name than it was written for that is reported as an '
     'error unless the check is turned off.',
     ['inputs'], 'all metadata values including text made of the reserved characters of the '
     'encoding, all file names',
     'tests cover a handful of values without reserved characters',
     ['augpathlib/meta.py', 'augpathlib/core.py'],
     [{'name': '_PathMetaAsSymlink.encode/decode/as_symlink/from_symlink',
       'where': 'augpathlib/meta.py'}],
     RT + 'round trip with justified rejection',
     EXPL + 'Oracle: the generated values; a rejection is accepted only with a reserved '
     'character in a value.')

prop('A03', 'Metadata symlinks written by every older format stay readable',
     'A metadata symlink in any format version ever written decodes to the values it was '
     'written from, with or without the leading file name and with or without trailing '
     'extra fields. The current writer writes the current format byte for byte.',
     ['inputs', 'configurations'], 'every format version, all metadata that version can hold',
     'no test reads an old version except one or two literal links',
     ['augpathlib/meta.py'],
     [{'name': '_PathMetaAsSymlink.versions', 'where': 'augpathlib/meta.py'}],
     RT + 'differential against an independent encoder',
     EXPL + 'Oracle: an encoder for all versions written for the check.')

prop('A04', 'Metadata behaves as a value: equality, copy, pickle, field access',
     'Two metadata values are equal exactly when all their fields are, however their '
     'timestamps were provided, and equality is symmetric. Copies, deep copies and unpickled '
     'values equal the original in every field. Iteration, item access and truth reflect the '
     'fields, and content is reported as different exactly when checksums differ or, lacking '
     'them, the size differs or the other is newer.',
     ['inputs'], 'all pairs of metadata values, all pickle protocols',
     'tests compare a few fixed values',
     ['augpathlib/meta.py'], [{'name': 'PathMeta', 'where': 'augpathlib/meta.py'}],
     RT + 'algebraic laws', EXPL + 'Oracle: field by field comparison in the check.')

prop('A05', 'Recording newer metadata merges it by fixed rules and persists it',
     'When new metadata is recorded for a cached folder every field it provides replaces the '
     'old one, fields it does not provide are kept unless it shows that the content changed, '
     'in which case they are dropped, and if the id changed the old id is remembered. What a '
     'fresh instance then reads is exactly the merged value. Other attributes of the path '
     'are untouched.',
     ['inputs', 'histories'], 'all sequences of metadata updates of a cached folder',
     'one test merges one fixed pair',
     ['augpathlib/caches.py'],
     [{'name': 'PrimaryCache metadata update', 'where': 'augpathlib/caches.py'},
      {'name': 'EatCache persistence', 'where': 'augpathlib/caches.py'}],
     RT + 'model based histories', EXPL + 'Oracle: a reference merge in the check.')

prop('A06', 'Printed metadata shows every field exactly once and correctly',
     'The printed table of metadata has one row for each field that has a value, with that '
     'value, and no other row. The printed difference of two metadata values shows every '
     'such field of both sides exactly once, on the same row when both have it.',
     ['inputs'], 'all pairs of metadata values',
     'tests never look at the printed output',
     ['augpathlib/meta.py'],
     [{'name': '_PathMetaAsPretty, _PathMetaAsPrettyDiff', 'where': 'augpathlib/meta.py'}],
     RT + 'output parsed back', EXPL + 'Oracle: the table is parsed back into fields.')

# -------------------------------------------------------------------- utilities

prop('B01', 'The etag of data depends only on the data and the chunk size',
     'However data is split into updates, and however often a digest is asked for along the '
     'way, the etag equals the digest of the concatenated digests of consecutive full chunks '
     '(and the last partial one) together with their number. The etag of a file equals that '
     'of its content, whatever chunk size its content is read with.',
     ['inputs', 'histories'], 'all data, chunk sizes, splits into updates and interleavings of '
     'early digests',
     'tests use a few splits of a few sizes',
     ['augpathlib/utils.py', 'augpathlib/core.py'],
     [{'name': 'etag', 'where': 'augpathlib/utils.py'}],
     RT + 'reference implementation', EXPL + 'Oracle: hashlib over slices of the whole data.')

prop('B02', 'Local metadata and checksums always describe the current file',
     'After any sequence of writes, appends, renames, permission and time changes the '
     'metadata of a local path, with or without its checksum, describes the file that is '
     'there now: its name, size, timestamps, owner, mode, inode and the checksum of its '
     'current bytes. A missing path has only an id and a name. Checksums equal the named '
     'cypher over the content for every cypher asked for.',
     ['histories', 'inputs'], 'all histories of file changes interleaved with metadata reads '
     'through the same path object, all contents and sizes around the read size',
     'tests read metadata once per file',
     ['augpathlib/core.py'],
     [{'name': 'LocalPath.meta, meta_no_checksum, checksum', 'where': 'augpathlib/core.py'}],
     RT + 'model based histories', EXPL + 'Oracle: os.stat and hashlib on the same file.')

prop('B03', 'Parsed stat output agrees with the file it came from',
     'The status parsed from the output of the stat command agrees with the operating system '
     'for any file name, size, mode, owner and times, and the printed human readable size is '
     'the size in the largest unit below 1024.',
     ['inputs'], 'all file names, sizes including sparse files, modes and timestamps',
     'tests parse one fixed line',
     ['augpathlib/utils.py', 'augpathlib/core.py'],
     [{'name': 'StatResult', 'where': 'augpathlib/utils.py'},
      {'name': 'FileSize', 'where': 'augpathlib/utils.py'}],
     RT + 'differential against os.stat', EXPL + 'Oracle: os.stat with nanoseconds.')

# ------------------------------------------------------------------ local paths

prop('C01', 'Relative path computation leads from one path to the other',
     'For any two absolute paths the common path is their deepest common ancestor or self, '
     'and the relative path between them, followed from the folder of the starting path (or '
     'from it when it is an ancestor), arrives at the destination. Going there is the '
     'converse of coming from there, and the result never climbs higher than the common path.',
     ['inputs'], 'all pairs of absolute paths, ancestors and descendants included',
     'tests use four fixed pairs',
     ['augpathlib/core.py'],
     [{'name': 'relative_path_from, relative_path_to, commonpath', 'where': 'augpathlib/core.py'}],
     RT + 'algebraic laws', EXPL + 'Oracle: os.path.normpath of the joined result.')

prop('C02', 'Swapping two paths exchanges them exactly or changes nothing',
     'Swapping two existing paths on one device, be they files, folders or links, given as '
     'absolute or relative paths, exchanges exactly those two with their content, inodes and '
     'attributes and changes nothing else; the atomic swap does it at once, with no time '
     'between at which one of them is not there. If the swap cannot be done (one is missing, one '
     'contains the other) an error is raised and the file tree is as it was, with nothing '
     'left behind. The carefree variant does the same when the atomic operation is not '
     'available, and when it fails between devices the tree is as it was.',
     ['inputs', 'configurations', 'fault_sequences'], 'all trees and pairs of paths in them, '
     'absolute or relative, same or different device, atomic operation available or not',
     'tests swap two files once',
     ['augpathlib/core.py', 'augpathlib/swap.py'],
     [{'name': 'swap, swap_carefree', 'where': 'augpathlib/core.py'},
      {'name': 'swap_linux', 'where': 'augpathlib/swap.py'}],
     RT + 'model of the tree', EXPL + 'Oracle: a snapshot of the whole tree with inodes.')

prop('C03', 'Recursive removal removes exactly its tree and refuses dangerous paths',
     'Removing a tree recursively removes exactly that tree: links in it are removed and never '
     'followed, nothing outside changes. Relative paths, top level paths, home directories, the current working directory and what contains it are '
     'refused before anything is touched, and nothing else is. Failures are '
     'raised, ignored, or reported to the callback as asked, and everything else in the tree is still removed.',
     ['inputs', 'fault_sequences'], 'all trees with links inside and out, all targets, '
     'unremovable folders, all error modes',
     'tests remove one tree and check two refusals',
     ['augpathlib/core.py'], [{'name': 'rmtree', 'where': 'augpathlib/core.py'}],
     RT + 'model of the tree', EXPL + 'Oracle: snapshots before and after with a model of '
     'removal. Runs unprivileged inside a scratch directory; refusals of real system paths '
     'are tested with removal calls replaced by recorders.')

prop('C04', 'Removing empty folders removes all and only the empty ones',
     'Removing the empty folders below a folder removes exactly the folders that contain no '
     'file, link or other entry at any depth, the folder itself included, and touches nothing '
     'else. A link is refused.',
     ['inputs'], 'all trees of folders, files, links and links to folders',
     'tests use one fixed tree',
     ['augpathlib/core.py'], [{'name': 'rmdirtree', 'where': 'augpathlib/core.py'}],
     RT + 'reference model', EXPL + 'Oracle: a recursive definition over the snapshot.')

prop('C05', 'Directory changes are always undone in order',
     'Entering a folder with a with statement makes it the working directory and leaving '
     'restores the previous one, nested to any depth, also for the same path object and when '
     'the body raises or the entered folder is removed meanwhile. The directory stack behaves as a stack: pushing '
     'changes to the folder, popping returns to where the matching push was made from, and a '
     'failed push changes nothing.',
     ['histories', 'fault_sequences'], 'all nestings of with blocks, pushes and pops over '
     'relative and absolute paths, with failures',
     'tests do one push and pop',
     ['augpathlib/core.py', 'augpathlib/caches.py'],
     [{'name': '__enter__/__exit__, pushd/popd', 'where': 'augpathlib/core.py'}],
     RT + 'model based histories', EXPL + 'Oracle: a list of directories.')

prop('C06', 'Path predicates agree with the file system, links and loops included',
     'For any path in any tree with links that are broken, loop, or point at their own '
     'children, asking whether it exists, is a file, a folder, a link or a broken link agrees '
     'with the operating system and never raises, and reading a link gives its target text, while resolving a loop is an '
     'error. Access checks agree with the operating system.',
     ['inputs'], 'all link graphs over a small tree, all paths through them',
     'tests cover a self link and one loop',
     ['augpathlib/core.py'],
     [{'name': 'exists, is_file, is_dir, is_symlink, is_broken_symlink',
       'where': 'augpathlib/core.py'}],
     RT + 'differential against os', EXPL + 'Oracle: os.stat and os.lstat.')

prop('C07', 'Data is written and read back byte for byte',
     'Writing a sequence of chunks to a path and reading it back in chunks gives the same '
     'bytes, empty data and empty chunks included, and keeps extended attributes. Reading '
     'byte ranges with any chunk size gives exactly the requested bytes. If producing the '
     'first chunk fails the existing file is untouched, and chained writers pass on and '
     'store the same data.',
     ['inputs', 'fault_sequences'], 'all data with sizes around the multiples of the chunk '
     'size, all chunkings, all lists of ranges, failures at any chunk',
     'tests write one short text and read no ranges',
     ['augpathlib/core.py'],
     [{'name': 'LocalPath.data, _data, _data_setter', 'where': 'augpathlib/core.py'}],
     RT + 'round trip', EXPL + 'Oracle: the bytes themselves.')

prop('C08', 'Copying never clobbers and copies exactly',
     'Copying a file to, from, into or out of a place gives a target with exactly the '
     'source bytes and leaves the source untouched. If anything, a broken link included, is '
     'already at the target the copy is refused and the target is unchanged unless it is '
     'forced, and copying a file onto itself never loses data.',
     ['inputs'], 'all kinds of source and target including missing, broken link, link to the '
     'source and the source itself, all sizes around the chunk size, forced or not',
     'tests copy two short files',
     ['augpathlib/core.py'],
     [{'name': 'copy_to, copy_from, copy_outto, copy_infrom', 'where': 'augpathlib/core.py'}],
     RT + 'model', EXPL + 'Oracle: a snapshot of the tree before and after.')

prop('C09', 'Extended attributes behave as a map per path; sparse marks are inherited',
     'For any history of setting, getting, listing and deleting extended attributes each path '
     'behaves as a map from names to byte strings: missing names are reported as such, '
     'deleting a missing name is only an error if asked for, other paths are unaffected and '
     'content is unchanged. A path that cannot be reached is always an error. A folder is '
     'sparse exactly when it or an ancestor is marked.',
     ['histories'], 'all histories over several paths, all names and byte values',
     'tests set and get a few attributes',
     ['augpathlib/core.py'],
     [{'name': 'XattrHelper', 'where': 'augpathlib/core.py'},
      {'name': 'EatPath sparse marks', 'where': 'augpathlib/core.py'}],
     RT + 'model based histories', EXPL + 'Oracle: a dictionary and os.listxattr.')

prop('C10', 'The mimetype and encoding of a path are those of its name',
     'A folder has the mimetype of folders. Anything else, be it a file, a link, a metadata '
     'link, a link that loops or nothing, has the mimetype and the encoding that the table of '
     'types has for its name, or else the mimetype that the class defines for all its '
     'suffixes. They are the same however the path is spelled, absolute or relative, and asking '
     'never fails.',
     ['inputs'], 'all names, kinds of path and spellings',
     'the tests ask about one or two absolute paths',
     ['augpathlib/core.py'],
     [{'name': 'AugmentedPath.mimetype, encoding', 'where': 'augpathlib/core.py'}],
     RT + 'differential', EXPL + 'Oracle: the mimetypes module on the plain name.')

prop('C11', 'A path of any class behaves as the pathlib path it extends',
     'For any history of the operations a path has from pathlib, on any spelling of a path and '
     'in any tree, a path of each class gives the same results, raises the same errors and has '
     'the same effects on the file system as pathlib does. Every path that comes out is of the '
     'class of the one that went in, and equal to and hashed as the one of pathlib.',
     ['histories'], 'all histories of operations, spellings, names and trees',
     'tests call a few of the operations once',
     ['augpathlib/core.py', 'augpathlib/repo.py', 'augpathlib/zip.py', 'augpathlib/package.py'],
     [{'name': 'AugmentedPath and its subclasses', 'where': 'augpathlib/core.py'}],
     RT + 'differential histories', EXPL + 'Oracle: pathlib itself, in a copy of the tree at '
     'the same place.')

prop('C12', 'Opening a path with another program hands it exactly that path',
     'A path that can be opened starts the default program of its class, or the command that is '
     'given when it is a string, with exactly one argument, which is that path as it is '
     'spelled, in the current folder, whatever characters the name has. It returns without '
     'waiting for the program and what the program writes does not come out as our own output. '
     'A program that is missing is an error.',
     ['inputs'], 'all names, spellings and commands',
     'nothing tests it: names with spaces, quotes or newlines decide, and the class may not '
     'even have the operation on this version of Python',
     ['augpathlib/core.py'],
     [{'name': 'XopenPath, XopenHelper.xopen', 'where': 'augpathlib/core.py'}],
     RT + 'differential', EXPL + 'Oracle: stand-in programs that record what they were given '
     'and wait until they are told to go on.')

prop('C13', 'A machine keeps one identifier, shared by all programs and all local paths',
     'The identifier is that of the first of the two places that has a readable one, and when '
     'neither has it a new one is made and kept, so that the next program finds the same one, '
     'also when several start at once or one fails before it is done. Another content gives '
     'another identifier. The id of a local path is that identifier and the path, so that two '
     'paths have the same id only when they are the same.',
     ['histories', 'schedules', 'fault_sequences'], 'all states of the two files, all interleavings of '
     'two programs and all failures of a call',
     'tests run on one machine whose identifier is there',
     ['augpathlib/utils.py', 'augpathlib/core.py'],
     [{'name': 'sysidpath, _bind_sysid_', 'where': 'augpathlib/utils.py'},
      {'name': 'LocalPath.id', 'where': 'augpathlib/core.py'}],
     RT + 'histories with interleaved programs and injected failures', EXPL +
     'Oracle: a model of the two files, relations between identifiers.')

# ------------------------------------------------------------- caches and remotes

prop('D01', 'Metadata links are replaced only by newer metadata and old ones are kept',
     'For any sequence of writes to the metadata link of one missing file, the link always '
     'holds one of the metadata values that was written, decided by fixed rules (same id '
     'updates, another id only wins when newer, a known size is never lost to an unknown '
     'one), and each value that was replaced is kept in the trash or was already there. '
     'Writing where a real file exists is refused and the file is unchanged.',
     ['histories'], 'all sequences of metadata writes with same and different ids, timestamps '
     'present or not',
     'tests write a link once or twice',
     ['augpathlib/caches.py'],
     [{'name': 'SymlinkCache meta setter', 'where': 'augpathlib/caches.py'},
      {'name': 'crumple', 'where': 'augpathlib/caches.py'}],
     RT + 'model based histories', EXPL + 'Oracle: a model of the update rules.')

prop('D02', 'A bootstrap mirrors the remote tree exactly',
     'Bootstrapping a local folder from a remote tree makes every remote folder a local '
     'folder and every remote file a link, each holding its remote metadata as read by a '
     'fresh process, and nothing else; only, skip and sparse applied to a folder below the '
     'root include exactly the selected parts. Doing it again after data was fetched changes '
     'no data, records metadata that changed and what is new, and lets folders follow '
     'their remote name and place, without disturbing local folders the remote does not know.',
     ['inputs', 'configurations'], 'all remote trees and selections',
     'tests bootstrap one fixed tree',
     ['augpathlib/caches.py', 'augpathlib/remotes.py'],
     [{'name': 'bootstrap', 'where': 'augpathlib/caches.py'},
      {'name': 'RemotePath.cache_init', 'where': 'augpathlib/remotes.py'}],
     RT + 'model of remote and local trees', EXPL + 'Oracle: the remote tree held by the '
     'check. The remote is an in memory implementation of the abstract remote class.')

prop('D03', 'Refreshing follows the remote and never loses local changes',
     'After any sequence of remote changes (content, renames, moves, deletions, additions) '
     'refreshing the affected caches brings names, places, metadata and fetched data in '
     'agreement with the remote. The content of a file that is deleted on the remote or is '
     'superseded is kept in the trash. A locally modified file is never overwritten by a '
     'changed remote: that is an error and the local bytes remain.',
     ['histories'], 'all histories of remote changes, local fetches, local edits and refreshes',
     'tests move one file once',
     ['augpathlib/caches.py', 'augpathlib/remotes.py'],
     [{'name': 'update_cache', 'where': 'augpathlib/remotes.py'},
      {'name': 'move, refresh, crumple, metadata update', 'where': 'augpathlib/caches.py'}],
     RT + 'model based histories', EXPL + 'Oracle: a model of the remote and of what is '
     'fetched locally, over an in memory remote.')

prop('D04', 'Fetching gives the remote bytes or says so',
     'Fetching a file replaces its link by a file with exactly the remote bytes and keeps its '
     'metadata, and files over the size limit stay links. When the bytes received do not '
     'match the recorded checksum, etag or size this is always flagged in the metadata or raised, '
     'and a transfer that fails at the start never leaves an emptied file in place of data '
     'or of the link.',
     ['inputs', 'fault_sequences'], 'all contents with sizes around the chunk size and limit, '
     'corrupted, truncated and failing transfers',
     'tests fetch nothing',
     ['augpathlib/caches.py', 'augpathlib/core.py'],
     [{'name': 'fetch, validate_file', 'where': 'augpathlib/caches.py'}],
     RT + 'fault injection', EXPL + 'Oracle: the remote bytes held by the check and the '
     'fault it injected.')

prop('D05', 'Moving a cached path moves content and metadata together',
     'Moving a cached file or folder, present or only a link, to a new name or place leaves '
     'exactly one path with its content and metadata at the target and nothing at the source. '
     'If another file or folder is at the target the move is refused and both remain as they '
     'were. '
     'Missing parent folders are made with their own remote metadata.',
     ['inputs', 'histories'], 'all kinds of source, target and relation between them',
     'tests move a file, a link and a folder to free targets',
     ['augpathlib/caches.py', 'augpathlib/core.py'],
     [{'name': 'move', 'where': 'augpathlib/caches.py'},
      {'name': 'mkdir_cache', 'where': 'augpathlib/core.py'}],
     RT + 'model of the tree', EXPL + 'Oracle: snapshot of the tree with inodes and metadata.')

prop('D06', 'Several anchored projects are isolated from each other',
     'Binding local, cache and remote classes together makes each set independent: anchoring, '
     'weighing anchor and using one set never changes what another set resolves. An anchored '
     'remote cannot be anchored a second time, anchoring into a non empty or already cached '
     'folder is refused, and the forgiving variant returns the existing anchor instead.',
     ['histories', 'configurations'], 'all histories of binding, anchoring and use over several '
     'class sets and folders',
     'tests bind one set per test module',
     ['augpathlib/remotes.py', 'augpathlib/caches.py'],
     [{'name': '_new, dropAnchor, smartAnchor, weighAnchor', 'where': 'augpathlib/remotes.py'}],
     RT + 'model based histories', EXPL + 'Oracle: a model of which set is anchored where.')

prop('D07', 'Walking a project lists every path once and skips only what is ignored',
     'From the root of a cached project the children and all descendants are each listed '
     'exactly once, leaving out exactly the ignored names directly below the root and what is '
     'in them; a name that only resembles an ignored one is listed. The cache root found from '
     'any path in the project, links included, is the root of the project.',
     ['inputs'], 'all local trees with names equal or similar to the ignored ones',
     'tests use one fixed tree',
     ['augpathlib/core.py'],
     [{'name': 'LocalPath.children, rchildren, find_cache_root', 'where': 'augpathlib/core.py'}],
     RT + 'reference model', EXPL + 'Oracle: os.walk with the documented exclusions.')

prop('D08', 'Making a remote folder for a local path makes exactly that',
     'Asking for the remote of a local path makes one remote folder of that name in the remote '
     'of its parent, and with parents also those missing above it, each bound to a local '
     'folder with its remote metadata as a fresh process sees it; what was there locally '
     'stays. It is refused, with nothing made that has no local folder, if either side already '
     'has something else there, if the parent is unknown and parents are not asked for, and '
     'outside of a project. Nothing else changes on either side.',
     ['inputs', 'histories'], 'all mirrored trees with unknown entries on both sides and all paths',
     'no test covers it without the network',
     ['augpathlib/core.py'],
     [{'name': 'LocalPath.mkdir_remote, cache_init', 'where': 'augpathlib/core.py'}],
     RT + 'reference model', EXPL + 'Oracle: the in memory remote and the local tree before and after.')

prop('D09', 'Setting up the data folder of a project never loses what is in it',
     'However often and in whatever order the data folder of a project is set up, afterwards '
     'there is a folder for objects, a trash if the project has one, and everything that was in '
     'them before. The objects are in another folder, given absolute or relative, exactly when '
     'that was asked for. If there are objects already, or they already are in yet another '
     'folder, or something else is there, it is refused and nothing changes.',
     ['histories'], 'all sequences of setting up, filling, removing and moving the objects',
     'no test covers it',
     ['augpathlib/caches.py'],
     [{'name': 'local_data_dir_init, anchorClassHere', 'where': 'augpathlib/caches.py'}],
     RT + 'model of the tree', EXPL + 'Oracle: a snapshot of the project and of the other '
     'folders before and after each step.')

prop('D10', 'Of two paths for the same thing the newer one is chosen',
     'Given two paths for the same remote thing the one whose recorded metadata was updated '
     'later is chosen, if that is the same the one that was changed locally later, where a link '
     'is older than a file, and if that is the same too the one whose size is known. The order '
     'in which they are given does not matter, an unknown time is older than any other, and '
     'nothing changes on disk. Different things are refused.',
     ['inputs'], 'all pairs of files, folders and links with known and unknown times and sizes',
     'no test covers it',
     ['augpathlib/caches.py', 'augpathlib/core.py'],
     [{'name': 'dedupe', 'where': 'augpathlib/caches.py'}],
     RT + 'algebraic laws', EXPL + 'Oracle: the order of the generated times and sizes.')

prop('D11', 'The local, cached and remote view of a path always lead to each other',
     'In a mirrored project, however a path is spelled and from whichever folder it is asked, '
     'its local path, its cache and its remote each lead to the other two, have the same id, '
     'name and place, and have the same parents and children as on the remote. A child '
     'reached by its name, by its remote or by its path is the same one, and a path that the '
     'remote does not know has no cache.',
     ['inputs'], 'all trees, spellings, working folders and orders of asking',
     'tests ask for absolute paths right below the root',
     ['augpathlib/core.py', 'augpathlib/caches.py', 'augpathlib/remotes.py'],
     [{'name': 'LocalPath.cache, CachePath.remote, CachePath.local', 'where': 'augpathlib/caches.py'},
      {'name': 'RemotePath.parts, parents, cache', 'where': 'augpathlib/remotes.py'}],
     RT + 'model based', EXPL + 'Oracle: the tree of the in memory remote.')

prop('D12', 'A file system call that fails is reported and loses nothing',
     'When one call that changes the file system fails in the middle of mirroring a remote '
     '(refresh, fetch, move, bootstrap, cache_init, crumple) or of swapping or copying local '
     'files, the operation raises, or ends exactly as it would have without the failure. No '
     'content of a local file is lost, nothing that was tracked and should be is untracked, '
     'nothing is missing that should be there, and nothing temporary is left behind.',
     ['crash_points'], 'all operations, remote changes, local states, failing calls and errors',
     'tests run on a disk where nothing fails',
     ['augpathlib/caches.py', 'augpathlib/core.py'],
     [{'name': 'move, fetch, update_cache, SymlinkCache.meta', 'where': 'augpathlib/caches.py'},
      {'name': 'swap_carefree, copy_to, data', 'where': 'augpathlib/core.py'}],
     RT + 'fault injection', EXPL + 'Oracle: the same operation without a fault on a second '
     'project, and invariants over the tree before and after.')

prop('D13', 'Ending the process at any point loses no local content',
     'When the process ends between any two changes it makes to the file system while it '
     'mirrors a remote or swaps or copies local files, all local content and all ids are '
     'still there, and no file that is half written looks complete. The project opens '
     'again in a new process, and bootstrapping it does not lose local content either.',
     ['crash_points'], 'all operations, remote changes, local states and points at which the '
     'process ends',
     'tests never end in the middle',
     ['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/remotes.py'],
     [{'name': 'move, fetch, crumple, update_cache', 'where': 'augpathlib/caches.py'},
      {'name': 'swap_carefree, copy_to, content_different', 'where': 'augpathlib/core.py'}],
     RT + 'fault injection', EXPL + 'Oracle: what was there before, and what the same '
     'operation makes on a second project.')

prop('D14', 'Working on different files at once gives what one by one gives',
     'When several threads of a process fetch, refresh, move, make, trash, copy, swap, write '
     'or look at different files of one project at the same time, each operation gives what it gives '
     'when they are done one after the other, and so is the tree in the end, '
     'whatever the order in which the threads get to the file system.',
     ['schedules'], 'all operations on different files and all orders of their calls to the '
     'file system',
     'tests run in one thread',
     ['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/remotes.py'],
     [{'name': 'fetch, move, refresh, crumple', 'where': 'augpathlib/caches.py'},
      {'name': 'swap_carefree, data, setxattrs', 'where': 'augpathlib/core.py'}],
     RT + 'drawn schedules', EXPL + 'Oracle: the same operations one after the other on a '
     'second project.')

prop('D15', 'Metadata that is lost at a path comes back from the backup',
     'With a backup cache every metadata that is recorded for a folder, file or link is given '
     'to the backup too. When the metadata at the path is gone (its attributes are wiped, its '
     'link is removed) the metadata of the path is what was recorded last, as the backup has '
     'it, and it is put back at the path, so that reading, recording newer metadata and fetching '
     'go on from it. If neither has any there is none.',
     ['histories', 'inputs'], 'all histories of recording, losing and reading metadata',
     'tests have no backup',
     ['augpathlib/caches.py'],
     [{'name': 'PrimaryCache.meta', 'where': 'augpathlib/caches.py'},
      {'name': 'PrimaryCache._meta_setter', 'where': 'augpathlib/caches.py'}],
     RT + 'model of the metadata of each path', EXPL + 'Oracle: the metadata recorded last, '
     'merged by the rules of A05, read from the path without the backup.')

prop('D16', 'Metadata is given to a path once, stays with it, and is copied when asked',
     'A file or folder in a project that has no cache metadata takes exactly the metadata, or '
     'the id, that it is given; giving it again, or where nothing is, is refused and '
     'changes nothing. Writing the file keeps it, renaming takes it along, copying gives it to '
     'the copy only when asked, and no other path is affected. The content of a file is '
     'different from its metadata exactly when its checksum, by the algorithm that the '
     'metadata names, is another.',
     ['histories'], 'all histories of giving, writing, renaming and copying over several paths',
     'tests give metadata to a path once and copy one file',
     ['augpathlib/core.py', 'augpathlib/caches.py'],
     [{'name': 'LocalPath.cache_init, copy_to, copy_from, content_different',
       'where': 'augpathlib/core.py'}],
     RT + 'model of the metadata of each path', EXPL + 'Oracle: a map from paths to content '
     'and metadata, hashlib.')

# ----------------------------------------------------------------------- git

prop('E01', 'A path always finds the repository it is in now',
     'For any path inside nested repositories, absolute or relative, the working directory is '
     'the innermost repository containing it, the repository object is for that directory and '
     'the repository relative path is the path below it. This stays true when repositories '
     'are created, removed and created again. Outside of any repository this is reported '
     'as an error.',
     ['histories', 'inputs'], 'all histories of creating, nesting, removing repositories and '
     'changing directory',
     'tests use one repository',
     ['augpathlib/repo.py'],
     [{'name': 'working_dir, repo, repo_relative_path, init', 'where': 'augpathlib/repo.py'}],
     RT + 'model based histories', EXPL + 'Oracle: a model of repositories and git rev-parse.')

prop('E02', 'Committing a file records exactly that file',
     'Committing one file records in the new commit exactly what git records for that path (its '
     'content in the working tree) on top of the previous commit, with the given '
     'message and date. Staged and unstaged changes of all '
     'other files, untracked files and stashes made before remain as they were.',
     ['histories'], 'all states of several files (clean, modified, staged, both, untracked, '
     'deleted) and existing stashes, sequences of commits',
     'tests commit one file with one other change',
     ['augpathlib/repo.py'],
     [{'name': 'commit, commit_from_working_tree, add_index', 'where': 'augpathlib/repo.py'}],
     RT + 'model based histories', EXPL + 'Oracle: git plumbing run by the check on the same '
     'repository.')

prop('E03', 'Historical content and commit lists agree with git',
     'Showing a file at any revision, in the index or in the working tree gives exactly the '
     'bytes stored there, and the commits listed for a path are exactly those that git lists '
     'as touching it, newest first.',
     ['histories', 'inputs'], 'all file contents (no final newline, blank lines, carriage returns, non '
     'utf-8 bytes, empty), names and histories',
     'tests show one short text',
     ['augpathlib/repo.py'],
     [{'name': 'show, latest_commit, commits', 'where': 'augpathlib/repo.py'}],
     RT + 'differential against git', EXPL + 'Oracle: git cat-file and git log.')

prop('E04', 'Change detection agrees with git for every state of a file',
     'Whether a file is modified in the working tree, staged, or has uncommitted changes is '
     'reported in agreement with git for every combination of states of several files, and a '
     'report concerns only that file. Differences between any two of working tree, index and '
     'revisions are reported exactly when the contents differ.',
     ['inputs', 'histories'], 'all combinations of committed, staged and working content',
     'tests walk one file through one sequence',
     ['augpathlib/repo.py'],
     [{'name': 'modified, indexed, has_uncommitted_changes, diff', 'where': 'augpathlib/repo.py'}],
     RT + 'differential against git', EXPL + 'Oracle: the contents known to the check.')

prop('E05', 'Visiting another ref restores branch and uncommitted state',
     'Using a ref as a context manager presents that ref with a clean tree, and on leaving, '
     'normally or by an exception, with or without changes made inside, the original branch '
     'is checked out again and all uncommitted, staged-as-content, ignored and untracked '
     'files from before are back.',
     ['histories', 'fault_sequences'], 'all states of the tree before, changes made inside, '
     'refs (same branch, other branch) and ways to leave',
     'tests visit one ref from two states',
     ['augpathlib/repo_patch.py'],
     [{'name': '_Reference.__enter__/__exit__', 'where': 'augpathlib/repo_patch.py'}],
     RT + 'model of the tree', EXPL + 'Oracle: snapshot of branch and tree before.')

prop('E06', 'Links to the hosted copy name the right repository, ref and path',
     'For any hosted remote given as an https or ssh address, with or without suffix, the human, '
     'raw and api links of a file name that owner and repository, the asked for ref or else '
     'the current branch, and the path of the file in the repository. A path reached through '
     'a local clone gives the link of the repository that it was cloned from.',
     ['inputs', 'configurations'], 'all owners, repositories, paths, refs and address forms',
     'tests check two addresses',
     ['augpathlib/repo.py'],
     [{'name': 'remote_uri_human, remote_uri_machine, remote_uri_api',
       'where': 'augpathlib/repo.py'}],
     RT + 'reference construction', EXPL + 'Oracle: the link built from its generated parts.')

prop('E07', 'The name given for the current ref is that of a ref to it',
     'On a branch, with or without commits, the name of the current ref is that of the branch. '
     'At a commit it is the name of a tag, branch or remote branch of exactly that commit or '
     'none, and never none if a tag is there. Every ref is found by its name, leads to its '
     'commit, and asking for one that is not there is an error.',
     ['inputs'], 'all histories, refs (annotated tags and names with slashes included) and '
     'places to be',
     'no test covers it',
     ['augpathlib/repo_patch.py'],
     [{'name': 'currentRefName, getRef', 'where': 'augpathlib/repo_patch.py'}],
     RT + 'reference model', EXPL + 'Oracle: the refs that were made with git plumbing.')

# ----------------------------------------------------------------------- zip

prop('F01', 'A path into a zip file behaves as the file system it holds',
     'For any zip archive, paths below it exist exactly for its members and their folders, are '
     'files or folders as they are in it, list exactly their children and descendants, and '
     'yield the member bytes whichever way they are opened. Paths that are not in an archive '
     'behave as ordinary paths.',
     ['inputs'], 'all archives (stored or deflated, with and without folder entries, nested '
     'names), all member sizes around the chunk size, absolute and relative paths',
     'tests read one archive',
     ['augpathlib/zip.py'],
     [{'name': 'ZipPath, ZipInternalPath', 'where': 'augpathlib/zip.py'}],
     RT + 'model', EXPL + 'Oracle: the archive as a dictionary.')

# ------------------------------------------------------------------- packages

prop('G01', 'The next version is always later, valid and in the asked for phase',
     'For any version and any phase to go to, the next version is a valid version strictly '
     'later than the current one and in that phase, with components after the bumped one '
     'reset, or the step is refused because it would go back. Staying in the current '
     'phase keeps it.',
     ['inputs'], 'all versions with and without epoch, pre, post and dev parts, all phases and '
     'release components',
     'no test covers it',
     ['augpathlib/package.py'],
     [{'name': 'next_version', 'where': 'augpathlib/package.py'}],
     RT + 'order and reference model', EXPL + 'Oracle: the ordering of the packaging library '
     'and a table of phase steps.')

prop('G02', 'What a package says about itself and its releases is its own',
     'From any path in a package, however it is spelled, the folder, name, version, module and '
     'arguments are those of the nearest setup.py above it. Its tag is the latest one in the '
     'history that is its own (never one of a package with a similar name), the version of the '
     'tag and of the releases listed by the indexes are read from what is its own, and the '
     'next version follows the latest one released. The commits since the last release are '
     'exactly those after the tag that touch the package, all of them if there was none.',
     ['inputs', 'configurations'], 'all repositories with any number of packages with similar '
     'names in each other, histories and tags',
     'no test covers it',
     ['augpathlib/package.py'],
     [{'name': 'PackagePath', 'where': 'augpathlib/package.py'}],
     RT + 'reference model', EXPL + 'Oracle: the generated layout, history and tags; requests '
     'is replaced by a stand-in.')

# ----------------------------------------------------------------------- ssh

prop('H01', 'Files behind a secure shell are described and read exactly',
     'For a file behind a secure shell session, with any name, content and times, existence, '
     'kind, status, checksum, access and data agree with the file on the other side, and a '
     'local cache made for it holds that metadata. However the path is spelled (absolute, with '
     'the host, relative to the anchor or joined) it is the same file. A transfer that fails is '
     'an error and never passes for the end of the data.',
     ['inputs', 'fault_sequences'], 'all file names, contents and modes on the remote side',
     'the tests for it are skipped without an ssh server',
     ['augpathlib/remotes.py', 'augpathlib/utils.py'],
     [{'name': 'SshRemote', 'where': 'augpathlib/remotes.py'}],
     RT + 'differential over a local shell session', EXPL + 'Oracle: os.stat and hashlib on '
     'the served directory. The ssh transport is replaced by a local shell.')
